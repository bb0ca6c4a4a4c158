"""Writes /verif/properties.jsonl (one property per line). Edit here, re-run, commit both."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe or [],
            "hook_needed": hook,
        },
    })

PM, MB, EM, TM, CT, UT, U2 = ("torchmps/prob_mps.py", "torchmps/mps_base.py", "torchmps/embeddings.py",
    "torchmps/torchmps.py", "torchmps/contractables.py", "torchmps/utils.py", "torchmps/utils2.py")

prop("C01", "Probabilistic models return the Born-rule log probability",
 "For a fixed-length or uniform probabilistic MPS, each returned number is ln(|a|^2 / Z), where a is the product left-boundary-vector x per-site matrices x right-boundary-vector built from the model's current parameters and the input (a core slice for a symbol, the input-weighted sum of slices for a vector or an embedded value; the bias matrix, if any, is added to every core slice), and Z is the model's squared norm. The value is right to floating-point accuracy for the inputs and parameters given at that call, whatever calls or parameter updates came before; an amplitude of zero gives minus infinity, and the loss is minus the mean of the returned numbers.",
 ["inputs", "configurations", "histories"],
 "every model kind, real or complex parameters, bias on/off, init method, sequence length, alphabet, bond dimension, batch, symbol/vector/embedded input, parameter values, and any sequence of parameter updates between calls",
 "The tests check shape, finiteness, sign and that two code paths agree; no test compares a returned log probability with an independently computed one, and the bias stays at its zero start value in every value test.",
 [PM, MB], [("ProbMPS.forward / ProbUnifMPS.forward", PM), ("get_mat_slices, contract_matseq, get_log_norm", MB)],
 ["ProbMPS.__call__", "ProbUnifMPS.__call__", "loss"],
 [("core_tensors, edge_vecs, bias_mat", "parameters of the model", PM)])

prop("C02", "Probabilities always sum (or integrate) to one",
 "The probabilities a probabilistic MPS assigns to all sequences of its length (for the uniform model: of any one given length) sum to one, or integrate to one over a continuous domain, for every parameter value, alphabet, bias, embedding and evaluation option, before, during and after training.",
 ["inputs", "configurations", "histories"],
 "all model kinds and configurations, all alphabets, all lengths, all embeddings and domains (discrete and continuous), all parameter values reached by training",
 "Tests sum over binary alphabets only, at initial parameters (bias exactly zero), with one-hot-proportional embeddings; the continuous case is checked for one length-one model at its start value.",
 [PM, MB, EM], [("log_norm", PM), ("get_log_norm", MB), ("make_lambda", EM)],
 ["ProbMPS.__call__", "ProbUnifMPS.__call__"])

prop("C03", "Evaluation options of probabilistic models never change the result",
 "For a probabilistic MPS the default, low-memory (slim) and parallel evaluation options return the same log probabilities, and the same gradients of the loss, to floating-point accuracy on every accepted input, and they accept and reject the same inputs except that slim evaluation refuses models with a bias matrix; when both options are requested, parallel evaluation overrides slim evaluation.",
 ["inputs", "configurations"],
 "all model configurations, parameter values, sequence lengths (odd, even, powers of two, zero for the uniform model) and batches",
 "The tests compare values with a 1e-4 tolerance at near-identity start parameters only, never gradients, and never lengths of zero.",
 [PM, MB], [("slim_eval_fun, mat_reduce_par, mat_reduce_seq", MB)], ["ProbMPS.__call__(slim_eval=, parallel_eval=)", "loss"])

prop("C04", "Parallel and serial evaluation of MPS and TI_MPS agree",
 "For the classifier models (fixed-size MPS with open or periodic boundaries and the translation-invariant sequence MPS) the parallel-evaluation flag changes neither outputs nor gradients beyond floating-point accuracy.",
 ["inputs", "configurations"],
 "all input sizes, output positions, boundary conditions, bias options, adaptive mode on/off at every merge offset, bond/feature/output dimensions, batches, parameter values",
 "No test evaluates one model both ways; the old scripts check output shapes only.",
 [TM, CT], [("ContractableList.reduce, MatRegion.reduce, MatRegion.__mul__", CT), ("LinearRegion.forward", TM)], ["MPS.__call__", "TI_MPS.__call__"])

prop("C05", "Matrix-sequence contraction equals the plain ordered product",
 "contract_matseq returns the ordered product of the given matrices with the optional left and right boundary vectors, with batch dimensions broadcast against each other in the standard way; in log format, contraction * exp(log scale) is that product. This holds for a stacked tensor or a sequence of compatible rectangular matrices, real or complex, with or without forced parallel evaluation, for any number of matrices (including none), and inputs whose product is undefined are rejected.",
 ["inputs", "configurations"],
 "all numbers of matrices, shapes, batch shapes on each operand, boundary-vector combinations, dtypes and flags",
 "Tests use identity matrices for batched input and at most ten unbatched random matrices; no complex values, no batch dimensions on matrices and vectors with different broadcast patterns, no zero products, no log-format with batches.",
 [MB, U2], [("contract_matseq, mat_reduce_par, mat_reduce_seq", MB), ("batch_broadcast, bundle_tensors", U2)], ["contract_matseq"])

prop("C06", "Long and badly scaled contractions neither overflow, underflow nor give NaN",
 "Log-format contractions and the log probabilities of probabilistic models stay correct to floating-point accuracy when the exact amplitude or norm is far outside the floating-point range (long sequences, large or tiny cores and boundary vectors). When the amplitude is exactly zero the result is a zero contraction, or log probability minus infinity for that input only, never NaN or an error.",
 ["inputs", "configurations"],
 "all sequence lengths up to thousands, parameter scales from 1e-12 to 1e12, structured cores with zero amplitudes, mixed batches of zero and nonzero inputs, all evaluation options, real and complex",
 "One test multiplies copies of a single positive rank-one 2x2 matrix; scales far from one, exact zeros and complex parameters with large norms are never exercised.",
 [MB, PM, U2], [("rescaling with log_scale", MB), ("hermitian_trace, realify", U2)], ["contract_matseq(log_format=True)", "slim_eval_fun", "ProbMPS.__call__", "log_norm"])

prop("C07", "MPS computes the tensor network its configuration describes",
 "The fixed-size MPS maps each input row to the contraction of its current cores with that row: sites are visited along the path (in input order if none), the output core sits at the label site (anywhere from before the first to after the last site), every site contributes core-contracted-with-feature-vector plus its region's bias matrix when biases are in use, and the chain is closed by first-basis vectors (open) or by a trace (periodic). Raw inputs are embedded as (x, 1-x) by default, pre-embedded inputs are used as they are.",
 ["inputs", "configurations", "histories"],
 "all input sizes from one up, label sites, paths (permuted, repeated, sub- and super-selections; list or tensor), boundaries, bias settings, dimensions, batches, raw and pre-embedded input, parameter values and updates",
 "The scripts in old_tests check only output shapes and parameter counts, for three output positions of one input size.",
 [TM, CT], [("MPS.forward, LinearRegion.forward, InputRegion.forward", TM), ("Contractable algebra", CT)], ["MPS.__call__"],
 [("core and bias tensors", "trainable state of the network", TM)])

prop("C08", "TI_MPS computes the repeated-core network; padding is neutral",
 "The translation-invariant MPS maps a sequence to start vector x product of the shared core contracted with each element (plus bias) x output matrix; raw elements x, of any numeric type, enter as (x, 1-x) by default. In a list of sequences of different lengths, raw or pre-embedded, each sequence gets the output it would get on its own; a list of equal-length sequences gives the same as the stacked tensor, and unequal lengths are refused when the model has no fixed bias.",
 ["inputs", "configurations", "histories"],
 "all lengths, mixes of lengths in a list, raw/embedded/batch-tensor formats, bias modes, fixed or trainable ends, dimensions, custom feature maps, parameter values",
 "The script test only checks output shapes; it never compares outputs of padded sequences with unpadded ones.",
 [TM], [("TI_MPS.forward, format_input, embed_input", TM)], ["TI_MPS.__call__"])

prop("C09", "A row's output depends only on that row and the model's parameters",
 "For every model, the output for one input row is the same (to floating-point accuracy) whatever the other rows, the order and size of the batch, the calls made before on this or any other model, and the batch sizes those calls used; a batch of n rows always gives n outputs.",
 ["inputs", "histories", "configurations"],
 "all interleavings of calls on several live models (all classes, all label sites) with changing batch sizes, permuted, duplicated, split and merged batches",
 "Tests call one model with one batch size and never compare rows across batches; the batch size is kept in process-wide state that only unusual call orders expose.",
 [CT, TM, PM], [("Contractable batch-size state", CT), ("LinearRegion.forward", TM)], ["MPS.__call__", "TI_MPS.__call__", "ProbMPS.__call__"],
 [("global batch size", "batch size assumed for tensors without batch axis", CT)])

prop("C10", "Concurrent evaluation of models in threads equals sequential evaluation",
 "When several threads evaluate different models, or the same non-adaptive model, at the same time on their own inputs, each call returns what it would return alone, under every interleaving, and afterwards the models answer and the process is set up as before.",
 ["schedules", "configurations"],
 "all interleavings of tensor operations of concurrent forward (and backward) calls with different batch sizes, over all model classes and label sites",
 "No test uses threads; a data race on shared state needs a particular interleaving.",
 [CT, TM, PM], [("Contractable batch-size state", CT)], ["MPS.__call__", "TI_MPS.__call__", "ProbMPS.__call__"],
 [("global batch size", "process- or thread-wide batch size", CT)], None)

prop("C11", "Adaptive re-merging keeps the function up to the optimal truncation",
 "When an adaptive MPS changes its merge state, the new function equals the old one with every merged core replaced by its best approximation keeping only the singular values not below the cutoff and at most the maximum bond dimension; in particular, if nothing is discarded the outputs do not change. Cores stay finite, and this holds at every change in the model's life.",
 ["histories", "inputs", "configurations"],
 "all training histories and interleavings of training steps, evaluations and merge-state changes, all input sizes, label sites, boundaries, dimensions, cutoffs and thresholds",
 "The script test only checks shapes, parameter counts and the offset over two changes without any training.",
 [TM, UT], [("MergedLinearRegion.forward/_merge/_unmerge/combine", TM), ("svd_flex", UT)], ["MPS.__call__ in adaptive mode"],
 [("active core list, offset, input counter", "merge state", TM)])

prop("C12", "Merge-state changes happen on schedule and are reported exactly",
 "An adaptive MPS changes its merge state at a call exactly when the inputs fed in earlier calls, less the threshold times the changes already made, have reached the threshold, at most once per call; any two consecutive changes together split every bond of the chain exactly once. After a change, the bond-dimension and singular-value lists hold, for each split bond, the singular values of the merged core in descending order (at most the maximum bond dimension of them) and the number not below the cutoff; entries of other bonds are untouched, and after a change, and as long as updates follow the gradients without memory of earlier ones, the model's actual rank across every bond not merged at that time is at most the reported dimension.",
 ["histories", "configurations"],
 "all sequences of batch sizes (including larger than the threshold), thresholds, cutoffs, input sizes, label sites, boundaries, and training in between",
 "The script test uses one batch size dividing the threshold and never looks at the reported lists.",
 [TM], [("MergedLinearRegion.forward", TM), ("MPS.forward list update", TM)], ["bond_list", "sv_list", "linear_region.offset"])

prop("C13", "An optimizer made once keeps training an adaptive MPS across changes",
 "The set of parameter objects of an adaptive MPS never changes after construction; after every merge-state change the tensors that determine the output are among them, gradients reach exactly these, and an optimizer step on them changes the output as its gradient predicts.",
 ["histories", "configurations"],
 "all training histories over many merge-state changes, with different optimizers, configurations and batch sizes",
 "The script test counts parameters but never trains, and does not check identity or gradients.",
 [TM], [("in-place update in _merge", TM)], ["parameters()", "backward", "optimizer.step"])

prop("C14", "svd_flex returns the optimal truncated factorization it documents",
 "For any real or complex tensor and index partition, contracting the two returned tensors over the new bond gives the best approximation of the input that keeps only singular values not strictly below the cutoff and at most the allowed number; the reported bond dimension is the number kept, the singular-value factor sits on the requested side with the other side orthonormal on the kept part, padding is exactly zero, the reported spectrum is the true one, and truncating everything raises an error. The input tensor is not modified.",
 ["inputs", "configurations"],
 "all tensor orders, shapes, index permutations, dtypes, cutoffs, size limits below/above the rank, degenerate and rank-deficient spectra",
 "The script test checks only output shapes for five fixed partitions.",
 [UT], [("svd_flex", UT)], ["svd_flex"])

prop("C15", "Gradients of every model are the true derivatives",
 "For every model, the gradient that backpropagation gives for each parameter and for floating-point inputs equals the derivative of the mathematical function the model computes (for the probabilistic models, of the exact average negative log likelihood, including its normalization), and is finite wherever that derivative exists.",
 ["inputs", "configurations", "histories"],
 "all model classes and configurations, evaluation options, parameter values, inputs, adaptive models at both merge offsets",
 "Tests only check that gradients exist and that parameters move.",
 [PM, MB, TM, CT, EM], [("differentiable contraction", MB), ("differentiable contraction", CT)], ["backward()"])

prop("C16", "Embeddings and their normalization matrix are exact",
 "For every embedding and domain, the normalization data used by a model represents the sum (discrete domain) or trapezoidal integral over the domain's interval (continuous domain) of v(x) v(x)^dagger, also when it is stored as a scalar or a diagonal. One-hot vectors have a single one at the index; the sine-cosine embedding gives component j = sqrt(binomial(d-1, j)) cos(pi x/2)^(d-1-j) sin(pi x/2)^j, for every input shape and dimension.",
 ["inputs", "configurations"],
 "all embedding functions (real, complex, orthogonal, non-orthogonal, anisotropic, tiny or huge scale), all discrete and continuous domains, all input shapes",
 "Only one-hot and one randomly initialized MLP on [0, 1] are tested; the trigonometric embedding is never called.",
 [EM], [("make_lambda", EM), ("onehot_embed, trig_embed", EM)], ["FixedEmbedding", "TrainableEmbedding", "onehot_embed", "trig_embed", "init_mlp_embed"])

prop("C17", "Trainable embeddings train jointly and the normalization follows",
 "The parameters of a trainable embedding are parameters of the model using it (listed, saved, moved and optimized with it), and after any update of any parameter both log probabilities and the log norm use the embedding's current values, so that the density stays normalized.",
 ["histories", "configurations"],
 "all sequences of forward calls, log-norm queries, optimizer steps, state loads and copies, over embedding modules and domains",
 "The only test evaluates a freshly initialized embedding once and never trains it.",
 [EM, PM], [("TrainableEmbedding", EM), ("ProbMPS.log_norm", PM)], ["parameters()", "log_norm", "ProbMPS.__call__"])

prop("C18", "Feature maps can be registered, replaced and reset at any time",
 "After any sequence of registrations on an MPS or TI_MPS, raw inputs are embedded with the map registered last (the default linear map after a reset), element by element in place; a module's parameters belong to the model while it is registered; a map of the wrong output size is refused and leaves the previous map in force; pre-embedded inputs bypass the map.",
 ["histories", "inputs", "configurations"],
 "all sequences of registering functions, modules, invalid maps and resets, interleaved with evaluations, on both model classes, for all feature dimensions",
 "The script test registers one plain function once per model.",
 [TM], [("register_feature_map, embed_input", TM)], ["register_feature_map", "parameters()", "__call__"])

prop("C19", "Saving, copying and restoring at any point reproduces the model",
 "At any point of a training history, a model restored from a deep copy, a pickle, a saved file or a state dictionary loaded into a freshly built model of the same configuration gives the same outputs and continues training on the same trajectory as the original, and the original is independent of the copy.",
 ["crash_points", "histories", "configurations"],
 "every step of every training history as the interruption point, all model classes and configurations, including adaptive models at both merge offsets and models with embeddings or feature maps",
 "Only one test calls load_state_dict, between two freshly built models without training.",
 [TM, PM, EM, CT], [("nn.Module state, merge state", TM), ("embedding state", EM)], ["state_dict/load_state_dict", "copy.deepcopy", "pickle", "torch.save/torch.load"])

prop("C20", "Double-precision models compute in double precision",
 "Every model converted to double precision (or, for probabilistic models, double complex; embeddings built in double precision) accepts double-precision inputs in all formats and returns double-precision results and gradients whose accuracy is that of double precision; contraction and factorization functions keep the precision of their arguments.",
 ["configurations", "inputs"],
 "all model classes, configurations, evaluation options and input formats, in double precision; adaptive models across merge-state changes",
 "All tests run in single precision with tolerances around 1e-4, which cannot see precision loss.",
 [TM, CT, UT, MB, U2, PM, EM], [("dtype of internally created tensors", TM), ("svd_flex padding", UT), ("realify", U2)], ["__call__ after .double() / .to(complex128)"])

prop("C21", "Initializers produce the documented tensors",
 "near_eye_init gives the identity in every core slice plus noise of the documented normalized size, normal_init gives zero-mean normal entries with standard deviation rel_std divided by the bond dimension, with uniformly random phases for complex tensors; init_tensor gives, for any order of the index labels, (truncated) identity slices or zeros plus noise of the given standard deviation, capping the identity at the smaller bond. Freshly built networks start at the documented near-identity. Models built from the same seed are identical, and different sites, slices and parameters are drawn independently.",
 ["configurations", "inputs"],
 "all shapes, label orders, methods, noise levels, truncation sizes, real and complex, seeds",
 "Tests use only noise zero and default label orders, and check no statistics.",
 [MB, UT, U2], [("near_eye_init, normal_init", MB), ("init_tensor", UT), ("phaseify", U2)], ["near_eye_init", "normal_init", "init_tensor"])

prop("C22", "Evaluation has no side effects, and a failing call changes nothing",
 "Evaluating a model (other than the documented merge-state change of adaptive models) is deterministic and modifies neither its inputs, nor its parameters and buffers, nor the global random state, nor gradients. A call that raises, because of a bad input, a failing feature map or embedding, or a failing decomposition or too large cutoff at a merge-state change, leaves the model usable with parameters, outputs and merge state as before.",
 ["fault_sequences", "histories", "inputs", "configurations"],
 "all model classes and configurations; faults injected at any tensor operation of a call; valid calls after failed ones",
 "No test checks for mutation, random-state use or behaviour after an exception.",
 [TM, PM, MB, UT, EM], [("no in-place operations on inputs or parameters", MB), ("MergedLinearRegion.forward", TM)], ["__call__", "contract_matseq", "svd_flex"])

prop("C23", "Batch broadcasting helpers follow the standard broadcasting rules",
 "batch_broadcast and batch_to give every tensor the NumPy-style broadcast of all batch shapes, leave non-batch dimensions and values unchanged, and raise an error exactly when the batch shapes are incompatible; bundle_tensors stacks equal-shaped tensors at the given place and returns other collections unchanged.",
 ["inputs"],
 "all numbers of tensors, batch shapes (including empty, singleton and zero-size dimensions), non-batch counts, positions",
 "Tests check shapes for two tensors of compatible shape; values, three or more random tensors and incompatible shapes are not covered.",
 [U2], [("batch_broadcast, shape_broadcast, batch_to, bundle_tensors", U2)], ["batch_broadcast", "batch_to", "bundle_tensors"])

prop("C24", "Inputs that do not fit the model are refused, never silently scored",
 "A model given input of the wrong length, the wrong feature size, the wrong order or a symbol at or above the alphabet size, or built from an inconsistent configuration (label site outside the chain, path of the wrong length, missing domain, mismatching embedding size), raises an error for every evaluation option instead of returning numbers.",
 ["inputs", "configurations"],
 "all model classes, all kinds of shape and range mismatch (including size-one dimensions that could broadcast), all evaluation options",
 "No test feeds malformed input to a model.",
 [PM, MB, TM, EM], [("shape assertions", MB), ("shape assertions", TM)], ["constructors", "__call__"])

prop("C25", "Data helpers keep every datum with its label",
 "joint_shuffle returns the same multiset of (datum, label) pairs for data of any order, type and memory layout, and leaves the caller's tensors as they were; onehot puts a single one at each label; load_HV_data returns every horizontal and vertical stripe image of the given size exactly once over its two disjoint sets, in a 75/25 split, each with the right label.",
 ["inputs"],
 "all sizes, shapes and dtypes",
 "No test calls these helpers.",
 [UT], [("joint_shuffle, onehot, load_HV_data", UT)], ["joint_shuffle", "onehot", "load_HV_data"])

prop("C26", "Contraction of labelled tensors is associative and order-preserving",
 "Multiplying a chain of contractable objects (edge vectors, single matrices, matrix regions, output cores or matrices, scalars, lists) gives the same tensor, with the same labelled indices, whatever the grouping, whether regions are reduced first or not, and from whichever end the list is reduced; operands and lists stay unchanged, so that they can be used again. Unsupported products raise TypeError; tensors of the wrong order or shape for a piece, pieces whose batch size is unknown, and lists which are empty or hold anything else are refused without effect.",
 ["inputs", "configurations"],
 "all valid chains, groupings, bond dimensions, batch sizes, positions of the output index",
 "One script checks the shape of one reduced region.",
 [CT], [("Contractable.__mul__/__rmul__, reduce", CT)], ["Contractable subclasses", "ContractableList.reduce"])

prop("C27", "The log norm is the log of the summed squared amplitudes",
 "get_log_norm (and the models' log_norm) returns ln of the sum over all index sequences of the squared magnitude of the amplitude, for per-site or shared cores and any length, weighted by the given normalization matrix whether it is absent, a scalar, a diagonal or a full (complex Hermitian) matrix; equivalent forms of that matrix give equal results.",
 ["inputs", "configurations"],
 "all cores, boundary vectors, lengths (including zero for shared cores), bond dimensions, real and complex, all forms of the matrix",
 "The norm is tested only through sums over binary strings, with no or scalar normalization matrix.",
 [MB, PM], [("get_log_norm", MB)], ["get_log_norm", "log_norm"])

prop("C28", "Matrix slices and low-memory amplitudes match the cores and inputs",
 "get_mat_slices gives, for each batch row and position, the core slice of the symbol or the input-weighted sum of slices, for shared or per-site cores, real or complex; slim_eval_fun returns (with its log scale) the amplitude of the same chain between the given boundary vectors, without conjugation.",
 ["inputs", "configurations"],
 "all shapes, symbol/vector input, shared/per-site cores, real/complex, all batch sizes and lengths",
 "Tests check shapes and identity cores only.",
 [MB, U2], [("get_mat_slices, slim_eval_fun", MB), ("CIndex", U2)], ["get_mat_slices", "slim_eval_fun"])

prop("C29", "Evaluation options have the cost profile they exist for",
 "Parallel evaluation of n matrices or sites takes a number of tensor operations growing at most logarithmically in n, and slim evaluation without gradients never holds an intermediate tensor that grows with both sequence length and bond dimension; serial evaluation with a boundary vector never forms matrix-matrix products over the sequence; the log norm never holds a tensor of more than order (n d + d^2) D^2 numbers (n sites, feature dimension d, bond dimension D).",
 ["inputs", "configurations"],
 "all lengths, batch sizes and bond dimensions",
 "Benchmarks only time the calls; no test asserts anything about cost.",
 [MB, CT], [("mat_reduce_par, slim_eval_fun, mat_reduce_seq", MB), ("MatRegion.reduce, MatRegion.__mul__", CT)], ["tensor operations dispatched during __call__"])

prop("C30", "Repeated use leaves no memory behind",
 "However often the same operations are repeated on a model - evaluation with any option, training steps, adaptive merge-state changes, feature map registrations, copies, state dictionaries, calls which fail, calls in short-lived threads - or on the library's functions, the memory held (tensors, autograd graphs, Python objects) does not grow.",
 ["histories", "configurations", "fault_sequences"],
 "all repetitions of all mixes of operations, for every model class and library function",
 "Tests make a handful of calls and never look at memory; a reference kept per call shows only in long training runs.",
 [TM, PM, MB, CT, UT, U2, EM], [("MergedLinearRegion.forward, register_feature_map", TM), ("Contractable.global_bs", CT), ("lamb_mat", EM)],
 ["bytes in use by the allocator and number of tracked objects after each window of repeated operations"])

prop("C31", "Chains composed by hand from the site modules compute the contraction they describe",
 "A LinearRegion made of any ordered list of input sites, input regions (with or without biases), merged inputs and at most one output site or merged output, with matching (also rectangular) bonds, returns for each input row the contraction of its modules in order, closed by first-basis vectors (open) or a trace (periodic), and gradients reach each module; its length is the number of inputs its modules take and core_len the number of cores, inputs of another shape are refused, core norms are the norms of the cores and rescaling multiplies exactly these; a slice of an input region acts as that part of it. Initial vectors and terminal matrices hold the documented values and are parameters exactly when not fixed; anything but a nonempty list of modules is refused.",
 ["inputs", "configurations"],
 "all ordered lists of site modules with matching bonds, boundary conditions, serial and parallel evaluation, batches and parameter values",
 "Tests build only the chains which MPS itself makes.",
 [TM, CT], [("LinearRegion, InputRegion, MergedInput, InputSite, OutputSite, MergedOutput, InitialVector, TerminalOutput", TM)],
 ["LinearRegion.__call__", "get_norm, rescale_norm", "len, core_len"])

prop("C32", "A model has the parameters and sizes its configuration describes, for life",
 "The trainable parameters of a model (number, shapes, precision; a bias exactly if asked for, fixed ends and biases not trainable, an embedding's parameters exactly if it is trainable; for adaptive models the cores of both merge states) and the sizes and options it reports are those its configuration describes, at construction and after any training, merge-state change, state-dictionary round trip, copy, precision change or feature map registration, and the outputs depend on every parameter. Arguments (of models, their building blocks, embeddings and functions) mean the same by position and by keyword, and leaving one out is the same as giving its documented default.",
 ["configurations", "histories"],
 "all configurations of all model classes, all argument styles, all histories",
 "Tests check output shapes for a few configurations; none looks at which parameters exist or at what is reported after training.",
 [TM, PM, EM, MB], [("ProbMPS.__init__, ProbUnifMPS.__init__, seq_len, input_dim, bond_dim, use_bias", PM), ("MPS.__init__, TI_MPS.__init__, core_len, __len__", TM), ("init_mlp_embed", EM)],
 ["named parameters and reported sizes after construction and after each operation"])

prop("C33", "The example script trains on its configured data and reports true averages",
 "For any values of its settings, train_script.py builds the configured model, and in every epoch trains on batches of the configured size covering the configured number of training images without repeats in an order that changes between epochs, with one Adam step per batch (configured learning rate and regularization) along the gradient of that batch's mean cross entropy over all parameters of the model; it then evaluates the configured number of test images without training on them. The average loss and the training and test accuracies it prints for each epoch are those of exactly these evaluations, each epoch on its own, and runs are reproducible.",
 ["configurations", "histories"],
 "all settings (sizes not divisible by the batch size included), modes, data and labels",
 "No test runs the script (it needs a download), and its printed numbers would look plausible if they were wrong.",
 ["train_script.py"], [("training and test loop", "train_script.py")],
 ["calls of the model, optimizer steps, the images in each batch, printed lines"])

prop("C34", "Runs are reproducible from the torch seed, and only from it",
 "Everything random in the library is drawn from torch's global generator: a program that builds models, initial tensors and perceptron embeddings and then evaluates, trains and adapts them gives, run again from the same torch seed, the same initial tensors and takes the same numbers from the generator, and the same later results up to rounding - whatever the state of the NumPy and Python generators, whatever unrelated library work (other models, data helpers, failing calls, threads) comes before or in between without touching torch's generator, and in any process. Another seed, and a second object built the same way, give other random tensors.",
 ["configurations", "histories"],
 "all programs made of the library's constructors, initializers, evaluations, training steps and merge-state changes; all seeds; all unrelated work in between",
 "The tests never compare two runs; a hidden dependence on another generator, a cached tensor or an earlier model shows only between runs or between models.",
 [UT, MB, PM, TM, EM, U2], [("init_tensor", UT), ("near_eye_init, normal_init", MB), ("ProbMPS.__init__, ProbUnifMPS.__init__", PM), ("TerminalOutput.__init__, MPS.__init__", TM), ("init_mlp_embed", EM), ("phaseify", U2)],
 ["initial tensors, generator state after every step, later outputs and parameters"])

prop("C35", "Models are independent of each other",
 "Whatever is done to one model - building, training, evaluating with any option, overwriting parameters or buffers in place, registering a feature map, loading another model's state dictionary, copying, converting, freezing, changing modes, failing calls, use from another thread, merge-state changes, deletion - every other model keeps its parameters, buffers, gradients, merge state, counters, maps, settings and outputs; no two tensors of the models share memory and no two models a module, also when they were built from one embedding function and data domain, after a state dictionary of one was loaded into another or one was copied; and arguments given to constructors stay as they were.",
 ["histories", "configurations"],
 "all pools of models of all classes, also of equal configuration, and all histories of operations on them",
 "Tests hold one model at a time (or compare two untouched ones); shared state between instances shows only when one is changed and another is looked at.",
 [TM, PM, MB, CT, EM, UT], [("MPS, LinearRegion, MergedLinearRegion (feature maps, merge state, state dictionaries)", TM), ("ProbMPS, ProbUnifMPS", PM), ("FixedEmbedding, TrainableEmbedding", EM), ("Contractable.global_bs", CT)],
 ["all members of a pool before and after every operation on another member"])

prop("C36", "Models work as parts of larger PyTorch programs",
 "A model used as a part of a larger module - at any depth, next to other models, between other layers - gives the same outputs, gradients for its parameters and for the layers before it, training trajectory, merge-state changes and state after saving and restoring the whole (through the parent's state dictionary, a copy, or being taken out and put back) as the same model called by itself. Calls in one graph add their gradients, gradients accumulate over backward passes, gradients of a subset of parameters are those parts of the whole gradient, frozen parameters change nothing for others, parameters substituted for a call are the ones used and leave the model as it was (for models whose modules have one name each), training and evaluation mode do not matter, and evaluation without gradients or in inference mode gives the same values and does not hinder later training.",
 ["configurations", "histories"],
 "all models of all classes, all ways of nesting, all histories of training, evaluation in any gradient mode, saving, restoring, copying, freezing and substituting",
 "Every test calls a bare model; nesting affects names in state dictionaries, gradient flow to the input and behaviour under gradient modes, which no test exercises.",
 [TM, PM, EM, MB], [("MPS.forward, TI_MPS.forward, MergedLinearRegion (forward, state dictionaries)", TM), ("ProbMPS.forward, ProbUnifMPS.forward", PM), ("TrainableEmbedding.forward", EM)],
 ["outputs, gradients, parameters and merge states of the part and of a copy used alone, after every operation"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
