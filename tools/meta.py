"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
I, H, C, FLT = "inputs", "histories", "configurations", "fault_sequences"
P = []


def prop(pid, title, statement, over, text, why, files, mech, note,
         state=(), observe=()):
    P.append({"id": pid, "title": title, "statement": statement,
              "over": over, "text": text, "why": why, "files": files,
              "mech": mech, "note": note, "state": state, "observe": observe})


T = "dattri/task.py"
A = "dattri/algorithm/"
prop("P01", "A task answers every request for the requested checkpoint",
     "Whatever was asked before, the parameters, loss values, target values and "
     "per-sample gradients a task returns for a checkpoint index and layer "
     "selection are those of that stored checkpoint and that selection. Stored "
     "checkpoints may be state dicts (also the state of the model itself), "
     "files, one or many, and may be loaded by a user function. Loading, "
     "training or using the model elsewhere in between does not change the "
     "answers.",
     [I, H, C], "all models, checkpoint lists, selections and request histories",
     "The tests make one or two requests on one model; cached state can only go "
     "wrong over a history of different checkpoints and selections.",
     [T], [("checkpoint loading and caching", T + " _load_checkpoints"),
           ("cached gradient functions", T + " get_grad_loss_func")],
     "Random request histories against a private float64 model of each "
     "checkpoint. Functions are used while their checkpoint is current.",
     state=[("current_ckpt_idx", "checkpoint currently loaded", T)])
prop("P02", "Layer selection is exactly a slice of the full computation",
     "Restricting an attribution or a function to an ordered selection of "
     "parameters gives the values of the full computation restricted to those "
     "coordinates, in that order, with all other parameters held at their "
     "values. Flattening, unflattening and per-layer splitting of parameters "
     "are exact inverses of each other and change none of their inputs.",
     [I, C], "all functions, parameter trees, selections and orders",
     "Tests use one selection on one model; a wrong slice or order shows only "
     "for other selections.",
     ["dattri/func/utils.py", T, A + "tracin.py"],
     [("partial parameters", "dattri/func/utils.py partial_param"),
      ("flattening", "dattri/func/utils.py flatten_func, flatten_params")],
     "Random trees, selections and orders against index arithmetic; additivity "
     "of scores over a partition of the parameters.")
prop("P03", "TracIn scores are the weighted sums of gradient inner products",
     "The score of a training and a test sample is the sum over checkpoints of "
     "checkpoint weight times the inner product of their projected (and, if "
     "asked, normalised) gradients, placed at the row and column in which the "
     "loaders deliver the samples. Undefined (NaN) gradient entries count as "
     "zero. A weight list that does not match the checkpoints is refused.",
     [I, C], "all models, checkpoints, weights, loaders, selections, projections",
     "Tests compare only shapes or one fixed case with one batch layout.",
     [A + "tracin.py"], [("weighted accumulation", A + "tracin.py attribute")],
     "Random tasks against per-sample float64 gradients.")
prop("P04", "Self-attribution is the diagonal of the method's own scores",
     "For every method offering self-attribution and loaders of any batch "
     "size, it returns one value per training sample, equal to the score that "
     "sample gets when it is used as the test sample (for TracIn and TRAK on "
     "tasks whose target is the loss). This also holds for "
     "methods a user builds on the documented inner-product base class, whose "
     "scores are the checkpoint means of the inner products of the "
     "representations it defines.",
     [I, H, C], "all methods, models, loaders and batch sizes",
     "Tests check a shape with a single batch.",
     [A + "base.py", A + "trak.py", A + "tracin.py", A + "influence_function.py"],
     [("diagonal computation", A + "base.py self_attribute")],
     "Random tasks; oracle is both the diagonal and a float64 value.")
prop("P05", "Scores do not depend on how the data is batched or ordered",
     "Changing the batch size of the training or test loader leaves every score "
     "unchanged, and permuting the samples of a loader permutes the rows or "
     "columns of the scores in the same way. Scores of one training/test pair "
     "do not depend on which other samples are attributed with them, wherever "
     "the curvature data is fixed.",
     [I, C], "all attributors, models, batch sizes and permutations",
     "Tests run each attributor with one loader layout.",
     [A + "base.py", A + "tracin.py", A + "trak.py", A + "rps.py",
      A + "influence_function.py", A + "dvemb.py",
      A + "block_projected_if/block_projected_if.py"],
     [("score placement", A + "base.py attribute")],
     "Metamorphic: rebatch, permute, subset for each attributor.")
prop("P06", "TRAK scores are the projected kernel influences",
     "TRAK scores equal the checkpoint mean of the projected test gradient "
     "times the inverse (regularised) training kernel times the projected "
     "training gradients, times the checkpoint mean of one minus the correct "
     "probability. They are the same whether the training set was cached "
     "beforehand or passed in, and using both or neither is refused. Undefined "
     "(NaN) gradient entries count as zero.",
     [I, H, C], "all models, checkpoints, projections, loaders, call histories",
     "Tests run one configuration and mostly check shapes.",
     [A + "trak.py"], [("kernel inverse", A + "trak.py cache"),
                       ("scores", A + "trak.py attribute")],
     "Random tasks against float64 closed form; projection from P15.")
prop("P07", "Influence scores use the exact regularised inverse Hessian",
     "The explicit and conjugate-gradient influence scores equal the mean over "
     "checkpoints of the training gradient times the inverse of the regularised "
     "loss Hessian of the curvature data times the test gradient; the "
     "stochastic variant equals its documented recursion. Without cached "
     "curvature data the training data given is used.",
     [I, C], "all models, checkpoints, regularisations, loaders, selections",
     "Tests check shapes, or one linear model with a loose tolerance.",
     [A + "influence_function.py", A + "base.py", "dattri/func/hessian.py"],
     [("test transformation", A + "influence_function.py transform_test_rep")],
     "Random tasks against float64 Hessians.")
prop("P08", "Arnoldi scores use the leading curvature eigenpairs",
     "The projected representations reproduce the inverse curvature restricted "
     "to its leading (positive) eigenpairs; they give the same result for the "
     "same seed, never exceed the exact inverse quadratic form and do not alter "
     "the user's random state. Non-positive eigenvalues do not contribute.",
     [I, C], "all spectra, projection sizes, iteration limits, seeds, batches",
     "Tests use one well-conditioned matrix.",
     ["dattri/func/projection.py", "dattri/func/hessian.py",
      A + "influence_function.py"],
     [("Arnoldi projector", "dattri/func/projection.py ArnoldiProjector")],
     "Exact comparison needs separated spectra; invariants always.")
prop("P09", "DataInf scores follow the layer-wise closed form",
     "With positive regularisation, scores equal the sum over layers of the "
     "closed-form rank-one inverse averaged over the curvature samples, for any "
     "selection of layers and any batch sizes; with one curvature sample they "
     "are the exact inverse of the regularised gradient outer product.",
     [I, C], "all models, layer selections, curvature data, batch sizes",
     "Tests compare one case with full layers.",
     [A + "influence_function.py"],
     [("layer-wise transformation", A + "influence_function.py IFAttributorDataInf")],
     "Random tasks against float64 closed form; regularisation > 0.")
prop("P10", "EK-FAC scores use the eigenvalue-corrected Kronecker curvature",
     "For each selected linear layer the curvature used is the eigenbasis of "
     "the activation and output-gradient covariances with eigenvalues equal to "
     "the mean squared rotated per-sample gradients, plus damping. This holds "
     "with and without biases, for sequential inputs with padding masks and "
     "for any batching of the curvature data.",
     [I, C], "all networks, module selections, curvature loaders, dampings",
     "The tests need a correlation of 0.95 on one model.",
     [A + "influence_function.py", "dattri/func/fisher.py"],
     [("covariances and eigenvalues", "dattri/func/fisher.py"),
      ("rotation", A + "influence_function.py IFAttributorEKFAC")],
     "Random tasks against per-sample float64 quantities; separated spectra.")
prop("P11", "Relative influence only rescales each training sample's scores",
     "With a relative option every row of the scores is the plain score row "
     "divided by the documented norm of that training sample, so signs and the "
     "ranking of test samples do not change. Unknown options are refused.",
     [I, C], "all methods, options, models, checkpoints, loaders",
     "Tests check that the call returns a shape.",
     [A + "influence_function.py", A + "base.py"],
     [("relative normalisation", A + "base.py attribute")],
     "Random tasks against float64 norms; one known finding.")
prop("P12", "Hessian-vector products equal the Hessian times the vector",
     "For every twice differentiable function, argument, mode, point and "
     "vector, the product returned is the (regularised) Hessian with respect to "
     "that argument times the vector, and inputs are left unchanged.",
     [I, C], "all functions, argument structures, points, vectors, modes",
     "Tests use a few scalar functions of flat vectors.",
     ["dattri/func/hessian.py"], [("hvp, hvp_at_x", "dattri/func/hessian.py")],
     "Random functions against double autograd in float64.")
prop("P13", "Inverse-Hessian solvers return the inverse Hessian product",
     "The explicit, conjugate-gradient and Arnoldi solvers return the "
     "regularised inverse Hessian (restricted to the leading eigenpairs for the "
     "latter) times every given vector, to their tolerance; the stochastic "
     "solver returns the average of its documented recursions over distinct "
     "samples. Free and fixed-point forms agree.",
     [I, C], "all functions, arguments, vectors, solver settings, random draws",
     "Tests use one or two small matrices per solver.",
     ["dattri/func/hessian.py"], [("solvers", "dattri/func/hessian.py")],
     "Random functions; LiSSA by enumerating every possible draw.")
prop("P14", "Inverse-Fisher products invert the regularised gradient outer product",
     "For every function, differentiated argument, point, regularisation and "
     "set of vectors the explicit inverse Fisher product is the inverse of the "
     "regularised outer product of the gradient times the vectors.",
     [I, C], "all functions, arguments, points, vectors, regularisations",
     "One test with one function.",
     ["dattri/func/fisher.py"], [("ifvp", "dattri/func/fisher.py ifvp_explicit")],
     "Random functions against float64 linear algebra.")
prop("P15", "Random projections are fixed linear maps that preserve products",
     "For given type, dimension, seed and ensemble index a projection is one "
     "linear map, the same for every call, batch split, input form and history; "
     "identity changes nothing, masking keeps a fixed set of coordinates, and "
     "the random maps preserve inner products on average. Different seeds, "
     "ensemble indices and blocks give independent maps.",
     [I, H, C], "all feature shapes, types, dimensions, seeds, call histories",
     "Tests check shapes and one average.",
     ["dattri/func/projection.py", "dattri/params/projection.py"],
     [("projectors", "dattri/func/projection.py"),
      ("factory", "dattri/func/projection.py make_random_projector")],
     "Linearity, determinism, distributional bounds; CPU only.")
prop("P16", "Representer-point values decompose the refitted last layer",
     "Scores equal the inner product of (optionally normalised) last-layer "
     "inputs times the representer weight, which is minus the mean loss "
     "gradient of the sample at the refitted layer divided by twice the "
     "regularisation; at a stationary point their sum reproduces the model's "
     "test output. Batching does not matter and the user's model is unchanged.",
     [I, C], "all last layers, data, batch sizes, regularisations",
     "One test checks the shape.",
     [A + "rps.py", A + "utils.py"], [("alpha", A + "utils.py get_rps_weight")],
     "Random models against a float64 formula.")
prop("P17", "KNN-Shapley values are the exact Shapley values of the KNN utility",
     "For each test sample the values equal the Shapley values of the K-nearest-"
     "neighbour utility, so they sum to the utility of the full training set; "
     "any batching, any distance function and either way of giving labels.",
     [I, C], "all data, K, labels, distance functions, batch sizes",
     "One test with one dataset.",
     [A + "data_shapley.py"], [("recursion", A + "data_shapley.py attribute")],
     "Brute-force Shapley over all subsets for up to 7 training points.")
prop("P18", "Data-value embeddings replay the training trajectory",
     "Embeddings of the samples used in training equal the recursion over the "
     "training steps in reverse: learning rate times (gradient minus the "
     "accumulated later correction), per epoch and summed over epochs, and "
     "scores are their inner products with test gradients. Only steps that "
     "completed count, a new trajectory replaces the earlier one, frozen "
     "parameters take no part, recording does not disturb the training, the "
     "memory of recorded batches may be reused, and a projection keeps inner products on average over seeds.",
     [I, H, C], "all trajectories, learning rates, batches, epochs, projections",
     "Tests run one short trajectory and check shapes and a few values.",
     [A + "dvemb.py"], [("recursion", A + "dvemb.py compute_embeddings"),
                        ("trajectory store", A + "dvemb.py cache_gradients")],
     "Random trajectories against a float64 reference recursion.")
prop("P19", "Block-projected influence equals the dense layer-wise formula",
     "The compressed gradient of each layer is a fixed linear map of the true "
     "per-sample gradient, and scores equal the layer-wise sum of compressed "
     "training gradient, inverse damped compressed second moment and compressed "
     "test gradient; with identity compression that is the uncompressed result. "
     "The storage back end, batch size and chunk size do not matter.",
     [I, H, C], "all models, layer selections, compressions, dampings, back ends",
     "Tests check shapes and that back ends agree on one case.",
     [A + "block_projected_if/block_projected_if.py", A + "logra.py",
      A + "factgrass.py", A + "block_projected_if/core/compressor.py"],
     [("compression", A + "block_projected_if/core/compressor.py"),
      ("preconditioner", A + "block_projected_if/block_projected_if.py")],
     "Random models against per-sample float64 gradients.")
prop("P20", "Stored gradients are read back as they were written",
     "Whatever sequence of stores, reads, clears and (in memory) overwrites is "
     "made, and whatever the back end, batch sizes, chunk sizes and reopening "
     "of the store, every batch, inverse-Hessian product and preconditioner is "
     "read back, directly or through a loader, as it was last stored. A write "
     "or read that fails on disk is raised, never answered with missing data, "
     "and writes that are still under way change nothing. A chunk file holds "
     "what was written to it however it is read, and counts as written only "
     "when it is complete.",
     [I, H, C], "all operation histories, layer shapes, batch and chunk sizes",
     "Tests store one sequence and read it once.",
     [A + "block_projected_if/offload/"],
     [("memory, cpu, disk back ends", A + "block_projected_if/offload/")],
     "Model-based histories against a dictionary.")
prop("P21", "Metrics compute the documented statistics",
     "The linear datamodelling score is, per test sample, the Spearman rank "
     "correlation (with its p-value) of the subsets' summed scores with their "
     "ground truth; the leave-one-out correlation is the Pearson correlation "
     "of the removed samples' scores with the ground truth; the mislabel "
     "detection rates and area are those of inspecting samples from the highest "
     "score down. All are unchanged by relabelling the training samples and by "
     "increasing affine rescaling of the scores.",
     [I, C], "all scores, ground truths, subsets, removed and noise positions",
     "Tests use a single small table each.",
     ["dattri/metric/metrics.py"], [("metrics", "dattri/metric/metrics.py")],
     "Independent correlation, p-value and ROC code.")
prop("P22", "Retraining and ground truth keep subsets, models and outputs aligned",
     "Each retrained model is trained exactly on the samples, among those its "
     "loader delivers, that are recorded for its directory (all but one for "
     "leave-one-out), with the caller's arguments, and is stored there. The "
     "ground truth computed from the directories holds, in the order of the "
     "returned indices, the (negated average, for datamodels) target of those "
     "models. A seeded run gives the same subsets and seeds whether made at "
     "once or in partitions, and repeating it repeats the training; numbers "
     "of subsets that do not fit together are refused before any training.",
     [I, H, C], "all dataset sizes, indices, subset counts, partitions, seeds",
     "Tests run two or three configurations and check that files exist.",
     ["dattri/model_util/retrain.py", "dattri/metric/ground_truth.py"],
     [("retraining", "dattri/model_util/retrain.py"),
      ("ground truth", "dattri/metric/ground_truth.py")],
     "A recording training function against an independent model.")
prop("P23", "Brittleness finds the smallest removal that flips the prediction",
     "The value returned is the smallest number in the search space of "
     "top-scored training samples whose removal makes the retrained model "
     "predict another label than the test sample's, and None when none does; "
     "each model is retrained on exactly the remaining samples of the loader.",
     [I, C], "all scores, search spaces, datasets, evaluation functions",
     "Tests use one fixed score vector.",
     ["dattri/metric/britteness.py"], [("search", "dattri/metric/britteness.py")],
     "A recording training function against a direct search.")
prop("P24", "Model utilities change only what they say they change",
     "Collecting a layer's inputs and outputs returns what that layer saw, in "
     "order; activating dropout changes exactly the dropout layers selected, "
     "and neither alters parameters or results of the rest of the model.",
     [I, H, C], "all models, layer selections, call sequences",
     "Tests use one model each.",
     ["dattri/model_util/"], [("hooks", "dattri/model_util/hook.py"),
                              ("dropout", "dattri/model_util/dropout.py")],
     "Random module trees against direct computation.")
prop("P25", "Label flipping and subset sampling touch exactly what is reported",
     "Flipping labels changes exactly the reported positions, each to a "
     "different label of the label space, the requested fraction of them, and "
     "leaves the caller's labels alone; every position and every other label "
     "can be chosen. A subset sampler delivers exactly its indices in order, "
     "every time.",
     [I, C], "all labels, fractions, label spaces, container types",
     "Tests use one list.",
     ["dattri/benchmark/utils.py"], [("flip_label", "dattri/benchmark/utils.py")],
     "Random labels against the definition.")
prop("P26", "Results depend only on the last cached data, not on call history",
     "Any sequence of caching, attribution and self-attribution calls on an "
     "attributor, also when it shares its task with another, or when the model "
     "is loaded, trained or used elsewhere in between, gives for every "
     "attribution the same scores as a fresh attributor given the latest cached "
     "data and that call alone. (Where a method treats the first training data "
     "attributed as cached data, as its warning says, that data counts as "
     "cached.)",
     [H, I], "all attributors and call histories",
     "Tests call each method once.",
     [A + "base.py", A + "trak.py", A + "influence_function.py",
      A + "block_projected_if/block_projected_if.py"],
     [("cached state", A + "base.py")],
     "Random histories, fresh object as the oracle.")
prop("P27", "Attribution leaves the user's model, data and random state alone",
     "Caching and attributing, whether they succeed or the user's functions "
     "raise, leave the caller's checkpoints, the loaders' data, the parameter "
     "objects, their trainability and accumulated gradients, the hooks and the "
     "training behaviour of the model as they were. Random number generators "
     "are not touched, except that methods that sample may advance (never "
     "reseed) torch's. After a failed call an attributor works like a fresh "
     "one.",
     [I, H, FLT], "all attributors, models, loaders and failing user functions",
     "No test looks at the caller's objects afterwards.",
     [A, T], [("private copies", T),
              ("hook removal", A + "block_projected_if/core/hook.py"),
              ("hook removal", A + "dvemb.py _calculate_gradient_factors")],
     "Snapshots before and after each call. Parameter values and training mode, "
     "which a task sets when it loads a checkpoint, are not part of it.")
prop("P28", "The command line tools pass the user's settings through unchanged",
     "The command line tools train with exactly the dataset, model, mode, "
     "seed, device, partition and paths given, and with the documented "
     "defaults for the rest.",
     [I, C], "all command lines",
     "No test runs the tools.",
     ["dattri/script/"], [("argument parsing", "dattri/script/dattri_retrain.py")],
     "Random command lines with recording stand-ins.")
B = "dattri/benchmark/"
MT = B + "models/MusicTransformer/"
prop("P29", "The bundled sequence models only look back",
     "In evaluation mode the outputs of nanoGPT and of the Music Transformer "
     "(with and without relative positions) at a position depend on the tokens "
     "up to it alone, equal the published architecture computed densely, and "
     "do not depend on the rest of the batch; the language model loss is the "
     "mean over targets that are not ignored; cropping the block size changes "
     "nothing; generation continues the prompt with the model's own choices. "
     "The smoothed cross entropy is the published formula.",
     [I, C], "all configurations, weights and token batches",
     "No test evaluates these models beyond a shape.",
     [B + "models/nanoGPT/model.py", MT],
     [("attention", B + "models/nanoGPT/model.py CausalSelfAttention"),
      ("relative positions", MT + "rpr.py _skew")],
     "Dense token-by-token reference, every prefix, greedy decoding by hand.")
prop("P30", "Music and text data keep their content on the way into tensors",
     "Event sequences decode to exactly the notes they were written from; a "
     "MIDI file encoded and decoded gives its notes, held through the pedal, "
     "on the 10 ms grid and with velocities in steps of four; data sets return "
     "every fragment with its shifted target, in order, padded and ended as "
     "defined; the preprocessing puts every piece in its split. Accuracy and "
     "learning-rate schedules are the documented formulas.",
     [I, C], "all scores, files, fragment lengths, windows and splits",
     "No test reads or writes a note.",
     [MT, B + "datasets/shakespeare_char/data.py"],
     [("encoder, decoder", MT + "midi_processor/processor.py"),
      ("fragments", MT + "dataset/e_piano.py")],
     "Random scores against an independent encoder; fragments by slicing.")
prop("P31", "Benchmark settings, training and losses belong together",
     "Loading a benchmark returns the model paths in numerical order, the "
     "ground truth of the requested metric and the data, model, loss and "
     "training functions of that benchmark; it downloads only if needed or "
     "asked, and refuses unknown benchmarks and failing servers. Training is "
     "a function of the data and the seed; losses are those of each sample, "
     "whatever the batches.",
     [I, H, C], "all benchmarks, server contents, call histories and data",
     "The tests would need the network for more than one fixed download.",
     [B + "load.py", B + "datasets/"],
     [("download and pairing", B + "load.py load_benchmark"),
      ("training, losses", B + "datasets/")],
     "Stand-in server and data sets; retraining twice; per-sample losses.")

NOT_APPLICABLE = {}


def main():
    built = {p["id"] for p in P if (ROOT / "checks" / (
        p["id"].lower() + ".py")).exists()}
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
    (ROOT / "properties.jsonl").write_text("".join(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {
            "files": p["files"],
            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
            "state": [{"name": a, "meaning": b, "where": c}
                      for a, b, c in p["state"]],
            "observe_at": list(p["observe"]), "hook_needed": None},
    }) + "\n" for p in P))
    na = [{"property": p["id"], "reason": NOT_APPLICABLE.get(
        p["id"], "the check is not built yet")} for p in P
        if p["id"] not in built]
    (ROOT / "MANIFEST.json").write_text(json.dumps({
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "./run.sh %s --tier quick" % p["id"],
            "thorough_cmd": "./run.sh %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "property-based testing (Hypothesis generators, "
                         "explicit oracle, shrinking)",
            "level": "exploration", "level_note": p["note"],
        } for p in P if p["id"] in built],
        "not_applicable": na,
        "notes": "No hooks: the checks use the public API of /repo as it is.",
    }, indent=1) + "\n")
    print(len(built), "checks;", [x["property"] for x in na], "not claimed")


if __name__ == "__main__":
    main()
