"""Rewrites known_findings.json (by hand only, never from a check)."""
import json
import pathlib
import subprocess

ROOT = pathlib.Path(__file__).resolve().parent.parent
FINDINGS = [
    ("relatif-ignored", "P11", "the Arnoldi, DataInf and EK-FAC attributors "
     "accept the relative-influence option and return the plain scores"),
    ("tuple-argnums", "P13", "ihvp_at_x_explicit documents a tuple for argnums "
     "but fails with AttributeError"),
    ("disk-restored", "P20", "a batch stored again in another disk round, with "
     "other batches and no clear in between, is in two chunk files and the "
     "loader returns it twice"),
    # dattri/benchmark counts as a test path here, so these are not repaired
    ("flip-outside-space", "P25", "flip_label adds labels that are not in the "
     "given label space to it, so later samples can be flipped to them"),
    ("flip-tensor-space", "P25", "flip_label with a label space given as a "
     "tensor can leave a reported label unchanged"),
    ("flip-array", "P25", "flip_label on an array of labels, as documented, "
     "fails with AttributeError"),
    ("flip-none", "P25", "flip_label with a fraction that flips no label "
     "fails with ValueError"),
    ("flip-dtype", "P25", "flip_label on labels that are not int64 fails"),
    ("music-beam", "P29", "MusicTransformer.generate with a beam of two or more "
     "shifts the tokens of every row but the first (it divides by the size of "
     "the vocabulary, not of the candidates)"),
    ("smooth-default-ignore", "P29", "SmoothCrossEntropyLoss fails on targets "
     "equal to its default ignore_index, -100"),
    ("midi-no-pedal", "P30", "encode_midi drops all notes of a file without "
     "sustain pedal"),
    ("midi-after-pedal", "P30", "encode_midi drops the notes after the last "
     "pedal phase"),
    ("midi-velocity", "P30", "encode_midi omits the velocity event of a note "
     "whose velocity divided by four is the raw velocity of the note before"),
    ("piano-first-fragment", "P30", "EPianoDataset with full_version and "
     "random_seq returns a random piece as the first fragment of a file, though "
     "random_seq is documented to be ignored"),
    ("imagenet-loss", "P31", "loss_imagenet_resnet18 weights the sum of each "
     "batch by its size, so it is neither the documented sum nor a mean"),
]
# commit subject -> (property, what failed)
FIXED = [
    ("partial_param no longer overwrites", "P02", "a restricted call wrote its values into the caller's full parameters"),
    ("accept a single layer name given as a string", "P02", "a layer name given as a string was split into characters"),
    ("self_attribute of inner-product attributors handles", "P04", "self_attribute used only the last batch"),
    ("TRAK self_attribute works after cache", "P04", "TRAK self_attribute failed after cache and returned a matrix"),
    ("TRAK accepts per-sample probabilities", "P06", "probabilities of shape (1,) worked only with cache"),
    ("rev-fwd HVP builds zero tangents", "P12", "forward mode failed for other arguments that are not tensors of the same shape"),
    ("conjugate gradient stops", "P13", "converged conjugate gradients returned NaN"),
    ("ihvp_at_x_lissa passes", "P13", "batch_size and num_repeat were swapped"),
    ("Arnoldi iteration is consistent", "P08", "norm_constant other than 1 gave wrong eigenvalues"),
    ("Arnoldi projector drops", "P08", "non-positive eigenvalues gave NaN"),
    ("Arnoldi projector no longer reseeds", "P27", "the global random state was reseeded"),
    ("Arnoldi influence accepts", "P08", "tuple and dict batches failed"),
    ("LiSSA influence accepts", "P07", "dict batches and float64 inputs failed"),
    ("DataInf splits", "P09", "layer selections were split at wrong columns"),
    ("EK-FAC rotates into", "P10", "the rotation was applied in the wrong direction"),
    ("EK-FAC keeps weights", "P10", "bias columns were mixed with weight columns"),
    ("EK-FAC statistics accept sequential", "P10", "sequential layer inputs failed"),
    ("EK-FAC statistics accept the documented", "P10", "a loss returning (loss, mask) failed"),
    ("EK-FAC estimates the FIM", "P10", "the curvature was estimated on the target function"),
    ("explicit IFVP uses the outer product", "P14", "the Hessian was used instead of the Fisher matrix"),
    ("random projector works again", "P15", "projecting after free_memory raised AttributeError"),
    ("chunked projection splits", "P15", "a dict whose features end exactly at the chunk limit was refused"),
    ("RPS weights reproduce", "P16", "weights were divided by the number of samples twice, and by the attributed instead of the fitted number"),
    ("KNN-Shapley base value", "P17", "with fewer training samples than neighbors the values did not sum to the utility"),
    ("KNN-Shapley documents the shape", "P17", "the documented shape was the transpose of the one returned"),
    ("split parameters of a checkpoint", "P01", "split parameters handed out for one checkpoint changed when another was loaded"),
    ("DVEmb accepts trajectories without", "P18", "a trajectory whose epochs do not start at 0 raised KeyError"),
    ("DVEmb does not clear gradients passed", "P18", "the caller's gradient list was emptied"),
    ("DVEmb gradient factors do not overwrite", "P18", "the .grad of the trained parameters was overwritten during training"),
    ("DVEmb leaves frozen parameters", "P18", "gradients of frozen parameters were included"),
    ("DVEmb drops the embeddings of an earlier", "P18", "embeddings of an earlier trajectory were summed into the later one"),
    ("DVEmb context manager does not record", "P18", "a training step that raised was recorded"),
    ("DVEmb projects layer inputs and outputs", "P18", "one seed for both factors made the projected products biased"),
    ("DVEmb uses the requested projection", "P18", "proj_type was ignored"),
    ("block-projected influence accepts gradients", "P19", "gradients that are not float32 raised a dtype error"),
    ("block-projected influence attributes the task", "P19", "test gradients were those of the cross entropy whatever the target function"),
    ("block-projected influence scores the training", "P19", "a training loader other than the cached one was ignored"),
    ("disk offload works without a GPU", "P20", "pinned buffers raised without a GPU driver"),
    ("batch metadata describes", "P19", "metadata of an earlier dataset with the same number of batches was kept"),
    ("caching again replaces", "P19", "batches of an earlier cache stayed in the store and in the second moment"),
    ("FactGraSS uses the projection seed", "P19", "proj_seed was ignored"),
    ("disk offload threads do not outlive", "P20", "the threads of the disk store were never stopped and kept it alive"),
    ("failed disk offload writes are reported", "P20", "a failed write was waited for forever, or, with two writes of a chunk, not waited for at all"),
    ("disk offload reads wait", "P20", "a batch on its way to the disk was read as empty"),
    ("unreadable disk offload chunks raise", "P20", "the loader left out chunks it could not read"),
    ("loo_corr pairs each ground truth", "P21", "the removed indices were ignored"),
    ("leave-one-out ground truth loads", "P22", "the saved models could not be loaded"),
    ("retrain_loo writes plain metadata", "P22", "the metadata could not be read back safely"),
    ("retrain_lds records all subsets", "P22", "the metadata of a partitioned run was not written, or with the wrong subsets"),
    ("retraining uses the samples selected", "P22", "models were trained on samples that the loader does not deliver"),
    ("brittleness tries the search space", "P23", "an unsorted search space returned a number that is not the smallest"),
    ("brittleness removes the samples", "P23", "positions of scores were used as dataset indices"),
    ("activate_dropout does not activate layers", "P24", "selecting drop1 activated drop10 too"),
    ("get_final_layer_io removes its hook", "P24", "the hook stayed on a model that raised"),
    ("dattri_retrain offers the supported mnist_mlp", "P28", "the supported mnist_mlp setting was refused"),
    ("dattri_retrain leaves out only samples", "P28", "by default models were trained without samples outside of the training subset"),
    ("dattri_retrain_nanogpt saves below", "P28", "a relative save path was below the installed package"),
    ("dattri_retrain_nanogpt starts with", "P28", "the first run used the seed before the requested one"),
    ("dattri_retrain_nanogpt accepts file names", "P28", "file names with spaces or quotes broke the commands"),
    ("rev-fwd HVP differentiates", "P12", "forward mode returned zeros for a negative argnums"),
    ("disk offload stores batches larger", "P20", "a batch of more than 2048 samples failed"),
    ("DVEmb removes its hooks when", "P27", "hooks stayed on the model when the loss raised"),
    ("EK-FAC removes its hooks", "P27", "hooks stayed on the model when caching raised"),
    ("block-projected attributors unhook", "P27", "after a call that raised the model's layers no longer got gradients in training"),
    ("block-projected attributors keep", "P27", "the accumulated gradients of the user's model were cleared or replaced"),
    ("block-projected attributors do not draw", "P27", "internal loaders advanced torch's global generator"),
    ("BlockProjectedIFAttributor accepts layers that get", "P19", "layers without gradients (unused, or not linear but listed) made caching fail"),
    ("DVEmb records every use", "P18", "a layer used twice gave wrong embeddings, a forward pass without gradients replaced the recorded inputs, and unused layers and in-place operations raised"),
    ("get_final_layer_io keeps", "P24", "an in-place operation after the layer changed the recorded outputs"),
    ("EK-FAC curvature is right", "P10", "layer outputs changed in place gave wrong curvature"),
    ("BlockProjectedIFAttributor handles layers that are used", "P19", "only the last use of a layer counted"),
    ("EK-FAC accepts layers that play", "P10", "layers that play no part in the loss made caching fail"),
    ("RPS fine-tuning starts from any", "P16", "an initial mean gradient of 10000 or more (strong regularisation, large features) raised UnboundLocalError"),
    ("EK-FAC does not accumulate", "P27", "caching added gradients to the user's model"),
    ("an unfinished metadata file", "P20", "ensure_chunk_written raised JSONDecodeError while the metadata of the chunk was being written"),
    ("DVEmb does not refer to the memory", "P18", "reusing the memory of a recorded batch or of its indices changed the embeddings"),
    ("a checkpoint that is the state of the model", "P01", "with model.state_dict() among several checkpoints, loading another one overwrote it"),
    ("a task reloads its checkpoint", "P26", "scores used the weights or the training mode that others (another task, training) had left in the model"),
    ("RPS and block-projected attributors use the task", "P26", "their scores used weights that others had left in the model, and RPS ignored the model that a loading function returns"),
    ("functions of some layers use the model that was loaded", "P26", "after a loading function returned another model, restricted gradient functions kept parameters of the earlier one"),
    ("LDS ground truth reads the models of the given directory", "P22", "a moved or copied retraining directory: the recorded paths were read, i.e. nothing, or the models of another run"),
    ("block-projected compressors accept layer inputs that are not contiguous", "P19", "strided layer inputs or gradients raised RuntimeError in view"),
    ("EK-FAC hooks the model that the loss", "P26", "after a loading function returned another model, caching again recorded nothing and used old activations"),
    ("the l-relative influence uses the gradient", "P11", "with a separate target function the norm was taken with the target's gradient of the training samples: wrong scores, or scores divided by the floor 1e-6"),
]


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"],
                         capture_output=True, text=True,
                         check=True).stdout.splitlines()
    fixed = []
    for key, p, what in FIXED:
        h = [x.split()[0] for x in log if key in x]
        assert len(h) == 1, (key, h)
        fixed.append("fixed: property=%s %s %s" % (p, h[0], what))
    n = sum(" fix: " in x for x in log)
    assert n - 3 == len(fixed), (n, len(fixed))  # 3 were reverted
    (ROOT / "known_findings.json").write_text(json.dumps({
        "findings": [{"id": i, "property": p, "what": w}
                     for i, p, w in FINDINGS], "fixed": fixed}, indent=1) + "\n")


main()
