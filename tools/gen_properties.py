"""Author-time helper: writes /verif/properties.jsonl (run by hand, not by any check)."""
import json, os

P = []


def add(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=qtext), why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                mechanism=[dict(name=a, where=b) for a, b in mechanism],
                observe_at=observe, hook_needed=None,
            ),
        )
    )


MB, PM, EM = "torchmps/mps_base.py", "torchmps/prob_mps.py", "torchmps/embeddings.py"
TM, CO, UT, U2 = "torchmps/torchmps.py", "torchmps/contractables.py", "torchmps/utils.py", "torchmps/utils2.py"

add("C01", "ProbMPS / ProbUnifMPS return exactly Born-rule log probabilities",
    "Calling a ProbMPS or ProbUnifMPS returns, for each sequence, twice the log magnitude of its amplitude minus the log norm, where the amplitude is the product left edge vector, one matrix per position (core slice selected by that position's input, plus the bias matrix if used), right edge vector. "
    "The log norm is the log of the squared norm of that very same tensor: the same cores (or, for the uniform model, as many copies as the sequence is long), bias, edge vectors and embedding Gram matrix, with bra factors conjugated. "
    "Hence multiplying any core or edge vector by a scalar leaves the returned values unchanged, and `loss` is the negated batch mean of them.",
    ["inputs", "configurations"], "all sequence lengths, bond and input dimensions, parameter values (real and complex), discrete / vector / embedded inputs, with and without bias",
    "tests check that probabilities sum to one only for tiny binary models near their initialisation, where a missing conjugate, a swapped edge vector or a wrong Gram factor cancels",
    [PM, MB],
    [("amplitude via mat slices or slim evaluation, plus accumulated log scale", "prob_mps.ProbMPS.forward / ProbUnifMPS.forward"),
     ("transfer-operator iteration", "mps_base.get_log_norm"), ("norm of cores + bias with embedding lambda", "prob_mps.*.log_norm")],
    ["ProbMPS.forward", "ProbMPS.loss", "ProbMPS.log_norm", "ProbUnifMPS.forward", "ProbUnifMPS.log_norm"])

add("C02", "Matrix-sequence contraction multiplies every matrix exactly once, in order",
    "The contraction of a sequence of matrices, given as one tensor or as a list with varying bond dimensions, is the ordered product of all of them, each used exactly once, whatever their number and whether or not it is a power of two. "
    "A left boundary vector, if given, multiplies the first matrix from the left and a right one the last matrix from the right, and the result has exactly one bond axis per open end, plus the broadcast batch axes. "
    "Taking matrix slices pairs the input at each position with the core of that same position (or with the one shared core), selecting or contracting its physical axis.",
    ["inputs", "configurations"], "every number of matrices (including zero and one), bond dimension, batch shape, boundary-vector combination, sequential, transposed right-to-left and parallel evaluation",
    "tests use near-identity or commuting matrices and a few lengths, on which reordering, dropping or transposing a factor is invisible",
    [MB, U2],
    [("pairwise tree reduction with leftover", "mps_base.mat_reduce_par"), ("sequential product with right-to-left transposition", "mps_base.mat_reduce_seq"),
     ("boundary vectors and dispatch", "mps_base.contract_matseq"), ("slice selection", "mps_base.get_mat_slices / slim_eval_fun")],
    ["contract_matseq", "get_mat_slices", "slim_eval_fun"])

add("C03", "Rescaling in long contractions is compensated exactly by the log scale",
    "In every contraction that renormalises intermediate results, the returned value times exp(log scale) equals the unnormalised product: each factor an intermediate is divided by enters the log scale once, with the right sign and for the right batch element. "
    "Rescaling factors are constant along the bond axes of the value they divide, and a contraction asked to fold the scale in returns the unnormalised product itself.",
    ["inputs", "configurations"], "all lengths, batch shapes, magnitudes and evaluation strategies, including the log-norm iteration",
    "near-identity test tensors have rescaling factors close to one, and tests cover a handful of lengths; a factor logged before its last correction or summed over the wrong axis stays within tolerance",
    [MB],
    [("per-step rescale and log accumulation", "mps_base.slim_eval_fun, mat_reduce_par, mat_reduce_seq, get_log_norm.transfer_op"), ("final scaling", "mps_base.contract_matseq")],
    ["slim_eval_fun", "contract_matseq", "mat_reduce_par", "mat_reduce_seq", "get_log_norm"])

add("C04", "Evaluation-strategy options never change the computed function",
    "For the same parameters and inputs, slim, parallel and default evaluation of the probabilistic models, and parallel_eval on or off for MPS and TI_MPS, compute the same mathematical function. "
    "Each strategy uses every core, edge vector and input exactly once in chain order, and an option combination that a strategy does not support is rejected instead of being evaluated differently.",
    ["configurations", "inputs"], "all option combinations, lengths, boundary conditions and inputs",
    "the tests compare strategies on a few shapes with near-identity cores",
    [PM, MB, TM, CO],
    [("strategy dispatch", "prob_mps.*.forward"), ("strategy dispatch", "mps_base.contract_matseq"), ("reduce with parallel_eval", "contractables.ContractableList.reduce, MatRegion.reduce")],
    ["ProbMPS.forward", "ProbUnifMPS.forward", "MPS.forward", "TI_MPS.forward"])

add("C05", "MPS routes each input site to its own core and the output core to label_site",
    "An MPS with n inputs evaluates a chain of n input cores with the output core placed after exactly label_site of them (default n // 2), for every label_site from 0 to n. "
    "Input site i (entry path[i] of the input when a path is given) is embedded and contracted with the i-th input core and no other, each core is used once and cores are multiplied in chain order. "
    "The default embedding maps x to (x, 1 - x), a registered feature map replaces it, and already embedded input is used as is.",
    ["inputs", "configurations"], "all n, label_site, paths (lists or tensors, including gaps and permutations), boundary conditions, feature dimensions and adaptive or fixed mode",
    "the tests evaluate a few sizes with the default label site and path and check little more than output shapes",
    [TM, CO],
    [("region layout", "torchmps.MPS.__init__"), ("path routing and embedding", "torchmps.MPS.forward / embed_input"), ("per-module input slicing", "torchmps.LinearRegion.forward"),
     ("core contraction", "InputRegion / InputSite / MergedInput / MergedOutput.forward")],
    ["MPS.forward", "LinearRegion.forward"])

add("C06", "Open chains end in the two boundary vectors, periodic chains are traced",
    "With open boundary conditions, the leftmost bond of the chain is contracted with the left boundary vector and the rightmost bond with the right one (first basis vector for MPS, initial vector and terminal matrix for TI_MPS). "
    "With periodic boundary conditions the left and right bonds are identified and summed (a trace), with no boundary vector. "
    "Either way the result has exactly one batch and one output axis, in this order.",
    ["configurations", "inputs"], "all chain layouts, bond dimensions and parallel_eval settings",
    "the tests compare both kinds only on diagonal identity-like cores, where trace and edge contraction are simple multiples",
    [TM, CO],
    [("trace / dummy end vectors", "torchmps.LinearRegion.forward"), ("edges of TI_MPS", "torchmps.TI_MPS.forward, InitialVector, TerminalOutput")],
    ["MPS.forward", "TI_MPS.forward", "LinearRegion.forward"])

add("C07", "Products of contractables contract adjacent bonds, in order, per batch element",
    "Multiplying two contractables contracts the right bond of the left operand with the left bond of the right one, separately for each batch element, and keeps every other axis (left bond, right bond, output) in the result under its own label; this holds also when Python dispatches to the reflected operator. "
    "Reducing a list or region of contractables is the ordered product of all of its members, whichever association or fallback direction is used. "
    "Multiplying with a batch of scalars scales each batch element by its own scalar.",
    ["inputs", "programs"], "all pairs of contractable kinds that support multiplication, batch sizes, numbers of matrices and bond dimensions",
    "existing tests only multiply a few region/edge combinations and compare identity-like results",
    [CO],
    [("generic product", "contractables.Contractable.__mul__"), ("vector-region product and tree reduction", "contractables.MatRegion"), ("list reduction", "contractables.ContractableList")],
    ["Contractable.__mul__", "Contractable.__rmul__", "ContractableList.reduce", "MatRegion.reduce"])

add("C08", "Merging and unmerging of an adaptive MPS preserve the chain of cores",
    "Each change of merge state in an adaptive MPS contracts neighbouring cores along their common bond, or splits merged cores back into neighbours, such that the chain keeps all cores in order, every core keeps its own input site (or output axis), and the number of inputs and cores is unchanged, up to singular values below the cutoff. "
    "The rescaling of core norms multiplies the whole chain by one.",
    ["histories", "configurations"], "every input_dim, label_site, boundary condition and number of merge-state changes",
    "tests flip the merge state of one or two small layouts and look only at shapes",
    [TM, UT],
    [("pair merging", "InputRegion._merge, MergedLinearRegion._merge / combine"), ("splitting", "MergedInput._unmerge, MergedOutput._unmerge, MergedLinearRegion._unmerge"), ("norm equalisation", "rescale_norm / get_norm")],
    ["MergedLinearRegion.forward"],
    [("offset", "current merge state", "MergedLinearRegion.offset"), ("module_list_0 / module_list_1", "cores of the two merge states", "MergedLinearRegion")])

add("C09", "An adaptive MPS keeps its registered parameter objects across merge changes",
    "The parameter objects an adaptive MPS registers at construction stay its parameters forever: a change of merge state updates them in place and without recording gradients, so an optimizer built beforehand keeps training the model that is evaluated. "
    "After each change, the cores used for evaluation are exactly the registered ones of the current merge state.",
    ["histories", "configurations"], "all sequences of forward calls and merge-state changes, layouts and optimizers",
    "tests never compare parameter identity or optimizer state across merge-state changes",
    [TM],
    [("in-place update under no_grad", "MergedLinearRegion._merge"), ("active list selection", "MergedLinearRegion.forward / __init__")],
    ["MPS.parameters", "MergedLinearRegion.forward"],
    [("module_list", "cores evaluated by the next call", "MergedLinearRegion.module_list")])

add("C10", "Adaptive mode shifts on schedule and reports bond dimensions at their bonds",
    "An adaptive MPS changes its merge state before evaluating a batch exactly when at least merge_threshold inputs were evaluated since the last change, where surplus inputs carry over and every batch counts with its size, and alternates between the two merge states. "
    "On a change, the bond dimension and singular values found by splitting a merged core are stored in bond_list and sv_list at the index of the bond that was split (counting the left end of the chain as 0), and other entries keep their values. "
    "Whether or not a change happened, calling the MPS returns the plain output tensor.",
    ["histories", "configurations"], "all batch-size histories, thresholds and chain layouts",
    "tests use one threshold and layout and do not look at which bond an entry describes",
    [TM],
    [("counter and flip", "MergedLinearRegion.forward"), ("bond bookkeeping", "MergedLinearRegion._unmerge, MPS.forward")],
    ["MPS.forward", "MPS.bond_list", "MPS.sv_list"],
    [("input_counter", "inputs since last flip", "MergedLinearRegion"), ("bond_list / sv_list", "per-bond results", "MPS")])

add("C11", "SVD splitting truncates below the cutoff, pads to max_D and keeps axis order",
    "Splitting a tensor by its SVD yields a left and a right tensor whose axes follow the requested index strings and whose contraction over the new bond is the input, with singular values multiplied into exactly one side (the right one unless sv_right is false). "
    "The new bond has size max_D if given (largest singular values kept, zero padding at the end) and otherwise the number of kept values; every singular value below the cutoff is dropped, every other one within max_D is kept, and the returned dimension is the number kept. "
    "Singular values are reported in descending order, aligned with the columns and rows they belong to.",
    ["inputs", "configurations"], "all tensor orders, shapes, index strings, cutoffs, max_D values and both sv_right settings",
    "the one existing test covers few shapes, compares products at loose tolerance and never truncates in the middle of a spectrum",
    [UT],
    [("svd, pad, truncate, merge, permute", "utils.svd_flex")],
    ["svd_flex"])

add("C12", "Every output row depends only on its own row of the input batch",
    "For every model the output for one batch element is a function of that element and the parameters alone: no operation reduces, contracts, shifts or mixes values along the batch axis (apart from the mean in `loss`), and the batch axis of the output lists the elements in input order. "
    "In particular, batches of size one and sequences of different lengths in one TI_MPS batch are evaluated as they would be alone.",
    ["inputs"], "all batch sizes and contents, models and evaluation options",
    "tests check output shapes for fixed batches, not that rows are independent",
    [PM, MB, TM, CO],
    [("batch-indexed einsum / matmul chains", "mps_base, contractables"), ("zero padding", "TI_MPS.format_input")],
    ["ProbMPS.forward", "ProbUnifMPS.forward", "MPS.forward", "TI_MPS.forward", "contract_matseq"])

add("C13", "TI_MPS applies one shared core at every position, with inert padding",
    "TI_MPS contracts its initial vector, one copy of the same trainable core (plus the same bias matrix when used) per position in sequence order, and its terminal matrix. "
    "A list of sequences gives for each sequence the result it would give alone: shorter sequences are padded at the end, after embedding, by zero vectors whose transition matrix is exactly the identity bias, and lists of different lengths are rejected unless that bias is fixed and used. "
    "The default embedding maps x to (x, 1 - x); a registered feature map is applied to every element instead.",
    ["inputs", "configurations"], "all sequence lengths, mixtures of lengths, embedded and unembedded inputs, bias and end settings",
    "tests use equal-length batches or check shapes only",
    [TM],
    [("core expansion and region", "TI_MPS.forward"), ("padding", "TI_MPS.format_input"), ("embedding", "TI_MPS.embed_input")],
    ["TI_MPS.forward", "TI_MPS.format_input"])

add("C14", "Models run unchanged in any floating precision and on any device",
    "A model moved to another device or cast to another floating precision evaluates inputs of that device and precision there: every tensor created during evaluation, merging or unmerging lives on the model's or the input's device and does not force or lose precision. "
    "Real and complex parameters are both supported wherever the constructor offers them, with inputs and embedding matrices promoted to the parameters' type.",
    ["configurations"], "all devices, floating dtypes, models, boundary conditions, evaluation options and adaptive histories",
    "the tests run only in single precision on the CPU",
    [PM, MB, TM, UT, EM, U2],
    [("buffers derived from parameters", "mps_base, torchmps.LinearRegion.forward, utils.svd_flex"), ("registered buffers", "TI_MPS, InputRegion, FixedEmbedding")],
    ["ProbMPS.forward", "MPS.forward", "TI_MPS.forward", "svd_flex"])

add("C15", "Trainable tensors are registered parameters with a gradient path to the output",
    "Each tensor a constructor declares trainable (cores, edge vectors, bias matrices, free end vectors and matrices, trainable embeddings) is a registered parameter, and each fixed one is a non-trainable buffer. "
    "The value returned by evaluating the model depends differentiably on every parameter of the evaluated chain: none is detached, copied out of the graph, evaluated without gradients or ignored.",
    ["configurations", "inputs"], "all constructor options, evaluation options and inputs",
    "tests call backward once for a default model and check that gradients exist at all",
    [PM, TM, EM],
    [("nn.Parameter / register_parameter / register_buffer", "constructors"), ("differentiable evaluation", "forward methods")],
    ["Module.parameters", "Module.state_dict", "forward"])

add("C16", "Evaluation and helpers never modify the caller's tensors or lists",
    "No call of a model, contraction, embedding, broadcasting, decomposition or data helper changes the contents of a tensor or list passed to it, except the documented singular-value output vector of the SVD split. "
    "Evaluating a model changes no parameter or buffer either, except for the merge-state update of an adaptive MPS.",
    ["inputs", "histories"], "all public calls and inputs, including views, expanded tensors and lists",
    "tests do not compare arguments before and after calls",
    [MB, TM, UT, U2, EM, CO],
    [("out-of-place arithmetic", "all modules"), ("copies before in-place work", "utils.joint_shuffle, utils.svd_flex")],
    ["contract_matseq", "svd_flex", "joint_shuffle", "batch_broadcast", "forward methods"])

add("C17", "Evaluation is deterministic and independent of earlier calls",
    "Apart from the merge schedule of an adaptive MPS, the result of evaluating a model is a function of its parameters, its options and the current input: no random numbers are drawn, and nothing left over from earlier calls, other model instances or other batch sizes influences it. "
    "Options given at construction are stored per instance, never shared between instances.",
    ["histories", "configurations"], "all interleavings of calls to any number of models with any batch sizes",
    "each test evaluates one model with one batch size in a fresh or lucky order",
    [CO, TM, PM, EM],
    [("global batch size set by each evaluation", "contractables.Contractable.global_bs, LinearRegion.forward"), ("no evaluation state", "forward methods")],
    ["MPS.forward", "TI_MPS.forward", "ProbMPS.forward", "ProbUnifMPS.forward"],
    [("global_bs", "class-wide batch size", "contractables.Contractable")])

add("C18", "Constructor and call options take the documented effect",
    "Every option accepted by a public constructor, method or helper takes effect, and reaches the component it configures under the same meaning: model sizes, boundary conditions, evaluation mode, bias and fixed-end switches, cutoff, merge threshold, initialisation method and noise, paths and feature maps. "
    "Unset options behave as documented defaults.",
    ["configurations"], "all options of all public classes and functions and all combinations of them",
    "tests leave most options at their defaults and could not notice that one is dropped or passed to the wrong place",
    [TM, PM, MB, UT, EM],
    [("argument plumbing", "constructors and forward methods")],
    ["MPS", "TI_MPS", "ProbMPS", "ProbUnifMPS", "init_tensor", "near_eye_init", "normal_init", "svd_flex", "contract_matseq"])

add("C19", "Malformed input is rejected instead of being evaluated",
    "Inputs whose number of sites, feature dimension, number of axes or bond dimensions do not fit the model or function raise an error, as do unknown option values, empty collections where at least one element is required, and boundary or bond specifications that contradict the tensors. "
    "No such input is silently truncated, broadcast or partly used.",
    ["inputs", "configurations"], "all public entry points and all shapes and option values outside their documented domain",
    "tests exercise valid input almost exclusively",
    [TM, PM, MB, CO, UT, U2],
    [("shape checks on entry", "forward methods, contract_matseq, slim_eval_fun, get_mat_slices, svd_flex, Contractable subclasses"), ("option checks", "constructors, init_tensor")],
    ["MPS.forward", "TI_MPS.format_input", "slim_eval_fun", "get_mat_slices", "get_log_norm", "svd_flex", "contractables", "DataDomain"])

add("C20", "Embeddings: Gram matrices integrate the embedding over its whole domain",
    "The matrix an embedding provides for normalisation is the sum over all indices 0, ..., max_val-1 of a discrete domain, or the trapezoidal integral over [min_val, max_val] of a continuous one, of the outer product of the embedded vector with its conjugate, where diagonal and multiple-of-identity forms are used only if they equal that matrix. "
    "Trainable embeddings provide it for their current parameters, and embedding data applies the same function that was integrated. "
    "The one-hot and trigonometric embeddings put their documented components in a new last axis.",
    ["inputs", "configurations"], "all domains, embedding functions, dimensions, real and complex values",
    "tests cover a one-hot embedding and one unit-interval network",
    [EM],
    [("numerical integration and simplification", "FixedEmbedding.make_lambda, TrainableEmbedding.make_lambda"), ("embedding functions", "onehot_embed, trig_embed, init_mlp_embed")],
    ["FixedEmbedding", "TrainableEmbedding", "onehot_embed", "trig_embed", "init_mlp_embed"])

add("C21", "Batch helpers broadcast only batch axes and keep order and contents",
    "Broadcasting a collection of tensors expands exactly their leading batch axes to the common shape given by the standard broadcasting rules, raises ValueError if there is none, and returns all tensors in their given order with the non-batch axes and the contents untouched. "
    "Bundling tensors stacks them in order along the requested axis exactly if all shapes agree, and otherwise returns them unchanged.",
    ["inputs"], "all numbers of tensors, batch shapes, including empty and size-one axes, and non-batch axis counts",
    "tests generate limited shapes and look at resulting shapes rather than contents",
    [U2],
    [("shape computation and expansion", "utils2.batch_broadcast, shape_broadcast, batch_to"), ("stacking", "utils2.bundle_tensors")],
    ["batch_broadcast", "shape_broadcast", "batch_to", "bundle_tensors"])

add("C22", "Data helpers keep every label attached to its own datum",
    "Jointly shuffling data and labels permutes both by the same permutation and loses or duplicates nothing. "
    "The horizontal/vertical toy data labels every image with a horizontal stripe pattern 0 and every vertical one 1, its training and test sets are disjoint, cover all images, and are shuffled consistently with their labels. "
    "One-hot labels set exactly the entry named by each label.",
    ["inputs"], "all data sizes, shapes, dtypes and image lengths",
    "no test calls these helpers",
    [UT],
    [("same-seed shuffles", "utils.joint_shuffle, utils.load_HV_data"), ("pattern and label generation", "utils.load_HV_data"), ("onehot", "utils.onehot")],
    ["joint_shuffle", "load_HV_data", "onehot"])

add("C23", "Initialisers give cores of the requested shape, near identity or near zero",
    "Each initialiser returns a fresh tensor of exactly the requested shape, equal to its documented centre (identity matrix slices between the left and right bond axes, the identity truncated to the given number of leading entries, or zero) plus random noise whose size is the documented one. "
    "Only the bond axes carry the identity, it is the same for every site, input and output index, and complex initialisation only adds a phase to the random part.",
    ["inputs", "configurations"], "all shapes, axis orders, noise sizes and methods",
    "tests only check shapes and finite values",
    [UT, MB],
    [("init_tensor", "utils.init_tensor"), ("near_eye_init / normal_init", "mps_base")],
    ["init_tensor", "near_eye_init", "normal_init"])

add("C24", "Long sequences neither overflow nor underflow",
    "Evaluating a ProbMPS or ProbUnifMPS, in every evaluation mode, and contracting a matrix sequence in log format never form an intermediate result whose size is a power of the sequence length: "
    "every tensor computed on the way, for the amplitude and for the normaliser, scales with a small power of the cores that does not depend on the number of sites, and magnitudes that do depend on it are kept as logarithms. "
    "So log probabilities stay finite for sequences of thousands of sites.",
    ["inputs"], "all parameter values, sequence lengths and evaluation modes", "tests sample a few short lengths with near-identity cores, for which missing rescaling does no harm", [MB, PM],
    [("rescaling in each contraction", "slim_eval_fun, mat_reduce_par, mat_reduce_seq, get_log_norm.transfer_op"), ("log scale never exponentiated", "ProbMPS.forward, contract_matseq")],
    ["ProbMPS", "ProbUnifMPS", "contract_matseq"])

add("C25", "Saved state restores the same function in a newly built model",
    "Loading the saved state of a model into a newly constructed model of the same configuration succeeds and restores the function the saved model computes. "
    "Every parameter, and every other tensor that evaluation depends on and that the constructor does not determine, is part of the saved state under the name it has in a new model; evaluating a model changes neither these names nor their shapes. "
    "This holds before and after evaluation, for trained parameters, and at any point of the merge schedule of an adaptive MPS.",
    ["histories", "configurations"], "all models and options, parameter values, earlier calls and points of the merge schedule",
    "no test saves or loads a model", [TM, PM, EM],
    [("registered parameters and buffers", "constructors of MPS, TI_MPS, InputRegion, ProbMPS, ProbUnifMPS, FixedEmbedding, TrainableEmbedding"),
     ("active merge state", "MergedLinearRegion.forward")],
    ["MPS", "TI_MPS", "ProbMPS", "ProbUnifMPS", "init_mlp_embed"])

add("C26", "Training reaches low loss and the adaptive mode finds suitable bond dimensions",
    "Gradient training of the models on learnable data reduces the loss, and adaptive mode converges to bond dimensions that suffice for the data.",
    ["histories"], "all data sets and optimisers", "tests do not train", [TM, PM],
    [("training script", "train_script.py")], ["loss"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
