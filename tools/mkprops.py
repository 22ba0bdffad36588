"""Writes properties.jsonl (kept as a script so that the text is easy to edit)"""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)
F = "torchmps/"
p("C01", "Probabilistic MPS models obey the Born rule",
  "For every parameter setting, ProbMPS and ProbUnifMPS return for each input sequence the natural logarithm of |psi(x)|^2 / Z, where psi(x) is the product left edge vector, core slices (plus the bias matrix, if any) and right edge vector, and Z is exp of the model's log_norm(). This holds for discrete and vector inputs, real and complex parameters and every evaluation strategy, and the output is real with shape (batch,); loss() is exactly the mean negative log probability of the batch. exp(log_norm()) equals the sum of |psi(x)|^2 over all discrete sequences.",
  ["inputs", "configurations"], "every value of cores, edge vectors, bias and vector inputs, every discrete input, for each (length, input_dim, bond_dim, real/complex, bias, strategy)",
  "Tests compare a few random draws against the code's own other path; an error in a slice, conjugation or log scale that vanishes for near-identity cores or real parameters is not seen.",
  [F+"prob_mps.py", F+"mps_base.py"], [("amplitudes, log scales and normalisation", F+"prob_mps.py ProbMPS.forward, log_norm"), ("sequential and parallel contraction", F+"mps_base.py contract_matseq")])
p("C02", "Probabilities are normalised, also with input embeddings",
  "For every parameter setting with non-zero norm, the probabilities that a ProbMPS or ProbUnifMPS assigns sum to one over all inputs of the embedding's domain: over all index sequences when there is no embedding or a discrete domain, and over the trapezoidal grid the embedding's normaliser uses on a continuous interval. This holds for fixed embeddings given as function or FixedEmbedding, for trainable embeddings with their current parameters (also after those change), with and without bias, real and complex.",
  ["inputs", "configurations"], "every value of cores, edges, bias and of the embedding's own vectors/weights",
  "Normalisation is an identity between the code that evaluates inputs and the code that integrates over them; tests check it for a handful of random models and for none with bias plus embedding.",
  [F+"prob_mps.py", F+"embeddings.py", F+"mps_base.py"], [("normalisation constant with lambda matrix", F+"mps_base.py get_log_norm"), ("lambda matrix", F+"embeddings.py make_lambda")])
p("C03", "get_log_norm is the log squared norm for every metric",
  "get_log_norm returns the logarithm of sum over i,j of psi_i conj(psi_j) prod_t Lambda[i_t,j_t] for every core tensor, uniform (with length) or site-dependent, every pair of boundary vectors and every positive metric given as None (identity), scalar, vector (diagonal) or matrix, without assuming that metric, cores or boundary vectors are real or symmetric beyond Lambda being Hermitian. Equivalent descriptions of the same metric and of the same chain (uniform against site-dependent) give the same value.",
  ["inputs", "configurations"], "all core, boundary and metric entries; lengths 1..4",
  "The existing test uses random real or complex cores without any metric; the scalar, diagonal and matrix branches are separate einsum strings a sampled norm does not distinguish when the metric is near the identity.",
  [F+"mps_base.py"], [("transfer operator per metric kind", F+"mps_base.py get_log_norm t_op"), ("trace rescaling", F+"mps_base.py transfer_op")])
p("C04", "Evaluation strategy and batching never change results",
  "Serial, slim, and parallel evaluation of probabilistic models give the same log probabilities, parallel_eval overrides slim_eval when both are requested, and slim evaluation with a bias raises ValueError. Serial and parallel MPS and TI_MPS evaluation give the same output. The result for one sample does not depend on which other samples are in the batch, their order or the batch size.",
  ["inputs", "configurations", "schedules"], "all parameters and inputs; batch compositions of up to 3 samples",
  "Tests compare strategies on random draws at loose tolerances; a scale factor that is only wrong for particular shapes or for mixed batches passes.",
  [F+"prob_mps.py", F+"torchmps.py", F+"mps_base.py", F+"contractables.py"], [("strategy dispatch", F+"prob_mps.py forward"), ("reduce", F+"contractables.py ContractableList.reduce")])
p("C05", "contract_matseq computes the ordered matrix product",
  "contract_matseq returns the product of its matrices in the given order, with the left vector multiplied from the left and the right vector from the right when present, for tensors and lists of matrices, square, rectangular or mixed shapes, any batch shapes that broadcast, serial or parallel; with log_format, output times exp(log_scale) is that product, and scale corrections are finite and shaped like the output's batch. Products that vanish come out as exact zeros, the empty product of a square tensor is the identity, and inconsistent or empty input without boundaries is rejected.",
  ["inputs", "configurations"], "all matrix and vector entries, for all shapes in the bounds",
  "Hypothesis tests sample shapes but compare with tolerances on Gaussian matrices; zero products, order reversal in one branch or a wrong broadcast of scales need specific values.",
  [F+"mps_base.py", F+"utils2.py"], [("dispatch and broadcasting", F+"mps_base.py contract_matseq"), ("pairwise and sequential products", F+"mps_base.py mat_reduce_par, mat_reduce_seq")])
p("C06", "Core slicing and slim evaluation follow the inputs",
  "get_mat_slices returns, for every batch element and position, core slice number x[b,t] (of that position's core for site-dependent cores) for index inputs, and the linear combination of slices weighted by the input vector for vector inputs; slim_eval_fun returns the MPS amplitude of every input as contraction times exp(log_scale). A one-hot vector input is equivalent to the index, and vector inputs act multilinearly, also with complex cores.",
  ["inputs", "configurations"], "symbolic indices and vectors, all core entries, uniform and site-dependent",
  "Random tests at equal batch and sequence length, or with uniform cores, cannot tell a transposed index pattern from the right one for all shapes.",
  [F+"mps_base.py"], [("indexing cases", F+"mps_base.py get_mat_slices"), ("slim evaluation", F+"mps_base.py slim_eval_fun")])
p("C07", "Batch broadcasting follows the standard rules",
  "shape_broadcast returns the standard broadcast of its shapes and raises ValueError exactly when they are incompatible; batch_broadcast and batch_to expand only the leading batch indices by those rules, leave the trailing non-batch indices and all values untouched and reject incompatible batches with ValueError. bundle_tensors stacks equal-shaped tensors at the given position and returns anything else unchanged.",
  ["inputs", "configurations"], "symbolic dimension sizes for up to three shapes of rank up to three; symbolic tensor entries",
  "The number of shape combinations is unbounded and single-tensor, singleton and zero-size dimensions interact.",
  [F+"utils2.py"], [("broadcast", F+"utils2.py shape_broadcast, batch_broadcast, batch_to, bundle_tensors")])
p("C08", "MPS computes the contraction of its cores with the input",
  "For every parameter setting, an MPS returns for each sample and output index o the full contraction of the chain: transition matrices sum_i x_i A_i plus bias at every input site in order, the label core inserted after label_site inputs, with first-component end vectors for open and a trace for periodic boundaries. This holds for every label_site from 0 to input_dim, with and without bias, serial and parallel, every feature and output dimension and input_dim down to 1.",
  ["inputs", "configurations"], "all parameters and inputs; input_dim 1..5, every label site, both boundary conditions",
  "Existing tests only check output shapes and finite training; the function computed is never compared with the mathematics.",
  [F+"torchmps.py", F+"contractables.py"], [("module chain", F+"torchmps.py LinearRegion.forward, InputRegion.forward, OutputSite.forward"), ("contractable algebra", F+"contractables.py")])
p("C09", "Paths route inputs, and feature maps embed them",
  "With a path, site k of an MPS sees exactly pixel path[k] of the (possibly longer) input, whether path is a list or tensor and whether data is embedded or not. Unembedded pixels x become (x, 1-x) by default and feature_map(x) when one is registered, for MPS and TI_MPS; a registered module's parameters become model parameters, None restores the default, maps of wrong output size are rejected with ValueError and default embedding with feature_dim other than 2 with RuntimeError; pre-embedded data is used as is.",
  ["inputs", "configurations", "histories"], "all inputs, parameters and feature map values; paths with repeats and skips; sequences of registrations",
  "Tests use the default map on random images; routing errors that permute symmetric positions or reuse an earlier map need exact comparison.",
  [F+"torchmps.py"], [("routing", F+"torchmps.py MPS.forward"), ("embedding", F+"torchmps.py embed_input, register_feature_map")])
p("C10", "Evaluation has no side effects and no hidden state",
  "Evaluating any non-adaptive model (MPS, TI_MPS, ProbMPS, ProbUnifMPS and its loss and log norm) or contraction function never changes its inputs, path or parameters, and the output depends only on the current parameters and input: repeating a call gives the same value, and calls of other models or with other batch sizes in between make no difference. Failed calls leave the model usable.",
  ["histories", "inputs"], "all inputs and parameters, histories of up to 4 interleaved calls with different batch sizes and models",
  "State shared between instances (such as a global batch size) only matters for particular call sequences.",
  [F+"torchmps.py", F+"contractables.py", F+"prob_mps.py", F+"mps_base.py"], [("global batch size", F+"contractables.py Contractable.global_bs")])
p("C11", "Adaptive merging and splitting preserves the function",
  "In adaptive mode, a flip of the merge state with a cutoff that removes nothing but zeros and with ranks within bond_dim leaves the MPS output function unchanged for every parameter setting, as does merging itself; the sequence of label site and inputs is kept for every label_site, input_dim and boundary condition. In either merge state the model computes the contraction of its current merged cores with the input.",
  ["inputs", "histories", "configurations"], "all core values (through any valid SVD of the merged cores), all inputs; input_dim up to 6, each label site, up to 3 consecutive flips",
  "Adaptive tests only check that training runs; a swap of two sites or lost scale after SVD keeps shapes and finiteness.",
  [F+"torchmps.py", F+"utils.py"], [("merge and unmerge", F+"torchmps.py MergedLinearRegion._merge, _unmerge, combine"), ("core splits", F+"torchmps.py MergedInput._unmerge, MergedOutput._unmerge")])
p("C12", "Adaptive scheduling and bookkeeping",
  "An adaptive MPS flips its merge state exactly when at least merge_threshold samples have been seen since the last flip (surplus carried over), at the start of the next call; each flip updates bond_list and sv_list exactly at the bonds that were split, with the number of retained singular values and the descending spectrum, leaving end bonds and other entries alone. Flips update existing parameters in place, so that the parameter objects an optimizer holds stay those of the model, and bias is disabled.",
  ["histories", "configurations"], "histories of calls with symbolic batch sizes; all core values through any valid SVD",
  "Threshold arithmetic and the positions of updated bonds depend on the whole history of batch sizes; tests run one fixed loop.",
  [F+"torchmps.py"], [("counter", F+"torchmps.py MergedLinearRegion.forward"), ("bond_list and sv_list", F+"torchmps.py MPS.forward")])
p("C13", "svd_flex returns a faithful truncated factorisation",
  "For every tensor and index split, svd_flex returns left and right tensors with the requested index order whose contraction over the new bond is the input with exactly the singular values below cutoff, or beyond max_D, removed; the bond size is max_D when given (zero padded beyond the returned truncated dimension) and the returned dimension otherwise. Singular values go to the right factor by default and to the left otherwise, leaving the other factor with orthonormal columns; sv_vec receives the descending spectrum, a wrong sv_vec shape raises TypeError, truncation to nothing RuntimeError.",
  ["inputs", "configurations"], "all tensor entries via any valid SVD; every partition of 2 to 4 indices, max_D below, at and above the rank",
  "Reconstruction is only exercised indirectly in tests, with index orders and cutoffs that never truncate.",
  [F+"utils.py"], [("factorisation", F+"utils.py svd_flex")])
p("C14", "TI_MPS output depends only on each sequence",
  "TI_MPS maps a sequence to initial vector times the ordered product of (bias + sum_i x_i A_i) times terminal matrix, for all parameters and every length, fixed or trainable ends and bias; without bias the bias term is absent. With a fixed bias, lists of sequences of different lengths give each sequence exactly its own output, whatever the other lengths, embedded or not; lists of different lengths are rejected with ValueError otherwise.",
  ["inputs", "configurations"], "all parameters and inputs; lists of up to 3 sequences with lengths 1..4",
  "Tests check shapes; padding errors only show when lengths differ and values are compared with unpadded evaluation.",
  [F+"torchmps.py", F+"contractables.py"], [("padding", F+"torchmps.py TI_MPS.format_input"), ("evaluation", F+"torchmps.py TI_MPS.forward")])
p("C15", "Initialisation has the documented structure",
  "Whatever the random draws, init_tensor, near_eye_init and normal_init return tensors of the requested shape whose entries are the documented mean (zero, identity per slice, or identity truncated to min(init_dim, bond dimensions)) plus noise of the documented standard deviation, complex ones with random phases applied to the noise. New ProbMPS, ProbUnifMPS, MPS and TI_MPS models start from them: equal-magnitude edge vectors, zero bias for probabilistic models, identity bias for MPS and fixed-bias TI_MPS, and documented parameter shapes.",
  ["inputs", "configurations"], "symbolic random draws; all shapes in the bounds and every documented method",
  "With std 1e-9 the noise is invisible to tolerance-based tests; scale factors and the placement of truncated identities are not.",
  [F+"utils.py", F+"mps_base.py", F+"prob_mps.py", F+"torchmps.py"], [("init", F+"utils.py init_tensor; "+F+"mps_base.py near_eye_init, normal_init")])
p("C16", "Contractables multiply associatively and act as documented",
  "Products of contractables (EdgeVec, SingleMat, OutputCore, OutputMat, Scalar, MatRegion, ContractableList) contract the adjacent right and left bonds sample by sample, scalars multiply values without changing kind, and the result does not depend on how a chain is bracketed; reduce() of regions and lists gives the ordered product serially or in parallel. Tensors without a batch index are expanded to the current batch size, and malformed bond strings or shapes are rejected.",
  ["inputs", "programs"], "all tensor entries; chains of up to 5 contractables with every bracketing supported",
  "Each operator pair is a separate code path (mul, rmul, reduce with fallback order), and tests only reach those a full MPS uses.",
  [F+"contractables.py"], [("products", F+"contractables.py Contractable.__mul__, MatRegion.__mul__, reduce")])
p("C17", "Gradients are the derivatives of the computed function",
  "Back-propagation through MPS, TI_MPS, ProbMPS, ProbUnifMPS (log probabilities, loss, log norm) and contract_matseq yields for every parameter and input the exact partial derivative of the mathematical function, in every evaluation strategy; no parameter that influences the output is detached. Rescaling and log bookkeeping inside contractions does not influence gradients.",
  ["inputs", "configurations"], "all parameters and inputs at which the function is differentiable",
  "Training tests pass with wrong or missing gradient terms as long as the loss decreases.",
  [F+"torchmps.py", F+"prob_mps.py", F+"mps_base.py"], [("differentiable paths", F+"mps_base.py contract_matseq; "+F+"torchmps.py forward")])
p("C18", "Embeddings and their normalisers are exact",
  "onehot_embed gives the unit vector of each index; trig_embed has components sqrt(C(d-1,j)) cos^(d-1-j) sin^j of pi x/2 and unit norm for every x and d. FixedEmbedding and TrainableEmbedding return the embedding function's values and hold as lamb_mat the sum (discrete) or trapezoidal integral over num_points (continuous) of v conj(v)^T, shortened to its diagonal or a scalar only when it equals that diagonal matrix or multiple of the identity; trainable embeddings expose their module's parameters and refresh lamb_mat on use; invalid domains and embeddings of the wrong dimension are rejected.",
  ["inputs", "configurations"], "all embedding values or weights, all data values, dimension 1..4, symbolic interval ends",
  "Tests check default embeddings at sampled points; the shortened forms of the normaliser depend on exact structure of the embedding.",
  [F+"embeddings.py"], [("embeddings", F+"embeddings.py onehot_embed, trig_embed, FixedEmbedding, TrainableEmbedding, init_mlp_embed")])
p("C19", "Malformed inputs and configurations are rejected",
  "Inputs whose length, feature dimension, rank or boundary shapes do not match the model, non-tensor data and unknown options raise an error (never silently broadcast, truncate or reuse data) in MPS, TI_MPS, ProbMPS, get_log_norm, slim_eval_fun, contract_matseq, init functions and constructors, and leave later correct calls unaffected. Well-formed inputs of any batch size are accepted.",
  ["inputs", "configurations"], "every mismatched dimension in a range around the correct one (symbolic mismatch sizes), all values",
  "Broadcasting makes many wrong shapes run silently; tests only feed correct shapes.",
  [F+"torchmps.py", F+"mps_base.py", F+"prob_mps.py", F+"contractables.py", F+"utils.py"], [("shape checks", F+"torchmps.py forward, embed_input; "+F+"mps_base.py asserts")])
p("C20", "The parameter set determines the model completely",
  "parameters() lists exactly the trainable tensors (cores, edge vectors, bias, ends, trainable embedding or feature map) and every listed one influences the output; loading the state_dict of one model into another with the same configuration makes both compute the same function for every parameter value, and a deep copy is independent of the original. Copies keep fixed quantities fixed: fixed bias and ends are buffers, not parameters.",
  ["inputs", "configurations", "histories"], "all parameter values of source and target models, all inputs",
  "Save/load is not tested at all; a tensor kept as plain attribute is lost only after reloading.",
  [F+"torchmps.py", F+"prob_mps.py", F+"embeddings.py"], [("parameter registration", F+"torchmps.py constructors; "+F+"prob_mps.py constructors")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
