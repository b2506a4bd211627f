"""P30: music and text data keep their content on the way into tensors."""
import json
import math
import os
import pickle

from pv.core import Result, Sub
from pv.gen import SEEDS, close, equal, require, st, torch

PROP = "P30"
RULE = (
    "A case is a random score (notes on a 10 ms grid, pedal phases) sent "
    "through a MIDI file, the encoder and the decoder; a random event "
    "sequence written from notes by an independent encoder; token sequences "
    "of any length in files read through the fragment data set; or character "
    "data cut into blocks. Every note, fragment and target must come out "
    "where the definition puts it. Non-trivial: notes of one pitch repeated "
    "or a silence of over a second (scores), more than one fragment of one "
    "file (data sets)."
)
ASSUMPTIONS = [
    "Encoder cases: velocities of 32 and more, a pedal in every file, notes "
    "inside their pedal phase and one note after the last phase; the other "
    "inputs are the recorded findings.",
    "Notes of one pitch do not overlap.",
]
TICK = 0.01


def notes_in(draw, lo, hi, most, vmin=1):
    """Non-overlapping notes per pitch: [pitch, start, end, velocity]."""
    out = []
    for pitch in draw(st.lists(st.integers(0, 127), min_size=1, max_size=3,
                               unique=True)):
        k = draw(st.integers(1, most))
        cuts = sorted(draw(st.lists(st.integers(lo, hi), min_size=2 * k,
                                    max_size=2 * k, unique=True)))
        for i in range(k):
            out.append([pitch, cuts[2 * i], cuts[2 * i + 1],
                        draw(st.integers(vmin, 31)) * 4])
    return out


# -- event sequences -------------------------------------------------------

@st.composite
def event_cases(draw):
    c = {"notes": notes_in(draw, 0, draw(st.sampled_from([20, 700])), 3, 0),
         "every": draw(st.booleans()), "steps": draw(st.sampled_from(
             [1, 7, 99, 100])), "junk": draw(st.booleans()),
         "file": draw(st.booleans())}
    return c


def check_events(c):
    from dattri.benchmark.models.MusicTransformer.midi_processor.processor \
        import Event, decode_midi
    marks = sorted([(s, 1, p, v) for p, s, _, v in c["notes"]] +
                   [(e, 0, p, None) for p, _, e, _ in c["notes"]],
                   key=lambda m: m[:3])
    ints, now, vel = [], 0, 0
    if c["junk"]:  # a release without a press is dropped
        free = min(set(range(128)) - {n[0] for n in c["notes"]})
        ints += [128 + free]
    for t, on, p, v in marks:
        while t > now:
            d = min(t - now, c["steps"])
            ints.append(256 + d - 1)
            now += d
        if on:
            if c["every"] or v != vel:
                ints.append(356 + v // 4)
                vel = v
            ints.append(p)
        else:
            ints.append(128 + p)
    for i in ints:
        require(Event.from_int(i).to_int() == i, "event %d" % i)
    mid = decode_midi(list(ints), "out.mid" if c["file"] else None)
    got = sorted((n.pitch, n.start, n.end, n.velocity)
                 for i in mid.instruments for n in i.notes)
    want = sorted((p, s * TICK, e * TICK, v) for p, s, e, v in c["notes"])
    require(len(got) == len(want) and all(
        a[0] == b[0] and a[3] == b[3] and abs(a[1] - b[1]) < 1e-6
        and abs(a[2] - b[2]) < 1e-6 for a, b in zip(got, want)),
        "%s decoded to %s" % (want, got))
    require(not c["file"] or os.path.exists("out.mid"), "no file written")
    starts = sorted({m[0] for m in marks})
    return Result(len(c["notes"]) > len({n[0] for n in c["notes"]}) or any(
        b - a > 100 for a, b in zip(starts, starts[1:])),
        ["long steps" if c["steps"] > 50 else "short steps"])


# -- MIDI files ------------------------------------------------------------

@st.composite
def midi_cases(draw):
    t, phases = draw(st.integers(1, 30)), []
    for _ in range(draw(st.integers(1, 3))):
        gap = notes_in(draw, t, t + 40, 1, 8) if draw(st.booleans()) else []
        lo = t + 45
        hi = lo + draw(st.sampled_from([20, 60, 500]))
        phases.append({"gap": gap, "lo": lo, "hi": hi, "again": draw(
            st.booleans()), "notes": notes_in(draw, lo + 2, hi - 2, 2, 8)})
        t = hi + 3
    return {"phases": phases, "tail": t + 5, "split": draw(st.sampled_from(
        ["train", "validation", "test"])), "prep": draw(st.booleans())}


def write_midi(notes, controls, path):
    import pretty_midi
    mid = pretty_midi.PrettyMIDI()
    inst = pretty_midi.Instrument(0)
    inst.notes = [pretty_midi.Note(v, p, s * TICK, e * TICK)
                  for p, s, e, v in sorted(notes, key=lambda n: n[1])]
    inst.control_changes = [pretty_midi.ControlChange(64, v, t * TICK)
                            for t, v in controls]
    mid.instruments.append(inst)
    mid.write(path)


def held(ph):
    """The notes of a pedal phase, held to the next press or the release."""
    out = []
    for p, s, e, v in ph["notes"]:
        later = [n[1] for n in ph["notes"] if n[0] == p and n[1] > s]
        out.append([p, s, min(later) if later else max(e, ph["hi"]), v])
    return out


def read_back(ints):
    from dattri.benchmark.models.MusicTransformer.midi_processor.processor \
        import decode_midi
    return sorted((n.pitch, round(n.start / TICK), round(n.end / TICK),
                   n.velocity) for i in decode_midi(ints).instruments
                  for n in i.notes)


def check_midi(c):
    from dattri.benchmark.models.MusicTransformer.dataset.preprocess_midi \
        import prep_maestro_midi
    from dattri.benchmark.models.MusicTransformer.midi_processor.processor \
        import encode_midi
    notes, ctrl, want = [], [], []
    for ph in c["phases"]:
        notes += ph["gap"] + ph["notes"]
        ctrl += [(ph["lo"], 100)] + ([(ph["lo"] + 5, 70)] if ph["again"]
                                     else []) + [(ph["hi"], 10)]
        want += ph["gap"] + held(ph)
    notes += [[60, c["tail"], c["tail"] + 5, 80]]
    os.makedirs("in/2004")
    write_midi(notes, ctrl, "in/2004/a.mid")
    ints = encode_midi("in/2004/a.mid")
    require(all(0 <= i < 388 for i in ints), "event out of range: %s" % ints)
    got = read_back(ints)
    # the note after the last phase is a recorded finding
    tail = (60, c["tail"], c["tail"] + 5, 80)
    got = [g for g in got if g != tail]
    want = sorted(tuple(n) for n in want)
    require(got == want, "%s came back as %s" % (want, got))
    if c["prep"]:
        write_midi([[61, 10, 20, 40]] + notes[-1:], [(5, 90), (30, 0)],
                   "in/b.mid")
        other = {"train": "test", "test": "validation",
                 "validation": "train"}[c["split"]]
        with open("in/maestro-v2.0.0.json", "w") as f:
            json.dump([{"midi_filename": "2004/a.mid", "split": c["split"]},
                       {"midi_filename": "b.mid", "split": other}], f)
        require(prep_maestro_midi("in", "out") is True, "preprocessing failed")
        name = {"validation": "val"}
        found = sorted(os.path.join(d, f) for d, _, fs in os.walk("out")
                       for f in fs)
        a = "out/%s/a.mid.pickle" % name.get(c["split"], c["split"])
        b = "out/%s/b.mid.pickle" % name.get(other, other)
        require(found == sorted([a, b]), "files %s" % found)
        for path, src in ((a, "in/2004/a.mid"), (b, "in/b.mid")):
            with open(path, "rb") as f:
                require(pickle.load(f) == encode_midi(src), path)
    return Result(any(len(ph["notes"]) > len({n[0] for n in ph["notes"]})
                      for ph in c["phases"]) and len(c["phases"]) > 1,
                  ["phases=%d" % len(c["phases"])])


def probe_pedal(_c):
    """Notes of a file without pedal are encoded."""
    from dattri.benchmark.models.MusicTransformer.midi_processor.processor \
        import encode_midi
    write_midi([[60, 10, 20, 80], [62, 30, 40, 80]], [], "a.mid")
    got = read_back(encode_midi("a.mid"))
    require(got == [(60, 10, 20, 80), (62, 30, 40, 80)], "notes %s" % got)
    return Result(True)


def probe_tail(_c):
    """Notes after the last pedal phase are encoded."""
    from dattri.benchmark.models.MusicTransformer.midi_processor.processor \
        import encode_midi
    write_midi([[60, 10, 20, 80], [62, 50, 60, 80]], [(5, 100), (40, 0)],
               "a.mid")
    got = read_back(encode_midi("a.mid"))
    require(got == [(60, 10, 40, 80), (62, 50, 60, 80)], "notes %s" % got)
    return Result(True)


def probe_velocity(_c):
    """A loud note after a soft one, both held, keeps its velocity."""
    from dattri.benchmark.models.MusicTransformer.midi_processor.processor \
        import encode_midi
    write_midi([[60, 10, 20, 20], [62, 15, 25, 80], [64, 50, 60, 80]],
               [(5, 100), (40, 0)], "a.mid")
    got = read_back(encode_midi("a.mid"))
    require(got[:2] == [(60, 10, 40, 20), (62, 15, 40, 80)],
            "notes %s" % got)
    return Result(True)


# -- fragments -------------------------------------------------------------

@st.composite
def piano_cases(draw):
    return {"lens": draw(st.lists(st.integers(0, 25), min_size=1, max_size=4)),
            "max": draw(st.integers(1, 8)), "full": draw(st.booleans()),
            "slide": draw(st.sampled_from([None, 1, 2, 3, 5, 9])),
            "random": draw(st.booleans()), "split": draw(st.booleans()),
            "seed": draw(SEEDS)}


def pad(v, n):
    return v + [389] * (n - len(v))


def check_piano(c):
    from dattri.benchmark.models.MusicTransformer.dataset.e_piano import (
        create_epiano_datasets,
    )
    g = torch.Generator().manual_seed(c["seed"])
    files = {}
    for part in (["train", "val", "test"] if c["split"] else ["."]):
        os.makedirs("d/" + part, exist_ok=True)
        for k, n in enumerate(c["lens"] if part in (".", "train") else [12]):
            seq = torch.randint(0, 388, (n,), generator=g).tolist()
            files.setdefault(part, []).append(seq)
            with open("d/%s/%02d.pickle" % (part, k), "wb") as f:
                pickle.dump(seq, f)
    rand = c["random"] and not c["full"]  # both: the recorded finding
    ds = create_epiano_datasets("d", c["max"], random_seq=rand,
                                full_version=c["full"], split=c["split"],
                                sliding_windows_size=c["slide"])
    pairs = zip(["train", "val", "test"], ds) if c["split"] else [(".", ds)]
    m, many = c["max"], False
    for part, d in pairs:
        want = []
        for seq in files[part]:
            if c["full"]:
                o = 0
                while o + m < len(seq):
                    want.append([(seq[o:o + m], seq[o + 1:o + 1 + m])])
                    o += m if c["slide"] is None else c["slide"]
                many = many or o > m
            elif len(seq) <= m:
                tail = seq[1:] + [388] if seq else []
                want.append([(pad(seq, m), pad(tail, m))])
            else:
                last = len(seq) - m if rand else 1
                want.append([(seq[o:o + m], seq[o + 1:o + 1 + m])
                             for o in range(last)])
        require(len(d) == len(want), "%d fragments, not %d" % (
            len(d), len(want)))
        for i, w in enumerate(want):
            x, t = d[i]
            require((x.tolist(), t.tolist()) in w, "item %d: %s, not %s" % (
                i, (x.tolist(), t.tolist()), w[0]))
    return Result(many or (rand and max(c["lens"]) > m + 1),
                  ["full" if c["full"] else "whole"])


def probe_fragment(_c):
    """With full_version random_seq is ignored, as documented."""
    from dattri.benchmark.models.MusicTransformer.dataset.e_piano import (
        create_epiano_datasets,
    )
    os.makedirs("d")
    with open("d/a", "wb") as f:
        pickle.dump(list(range(60)), f)
    ds = create_epiano_datasets("d", 4, random_seq=True, full_version=True,
                                split=False)
    first = [ds[0][0].tolist() for _ in range(20)]
    require(all(x == [0, 1, 2, 3] for x in first), "first fragment %s" % first)
    return Result(True)


@st.composite
def text_cases(draw):
    n = draw(st.integers(1, 40))
    block = draw(st.integers(1, 9))
    k = n // block
    return {"n": n, "block": block, "seed": draw(SEEDS), "idx": draw(
        st.lists(st.integers(0, k - 1), min_size=1, max_size=6)) if k else []}


def check_text(c):
    import numpy as np
    from dattri.benchmark.datasets.shakespeare_char.data import CustomDataset
    data = np.random.default_rng(c["seed"]).integers(
        1, 65000, c["n"]).astype(np.uint16)
    kept = data.copy()
    ds = CustomDataset(data, c["block"])
    b, v = c["block"], data.tolist()
    require(len(ds) == c["n"] // b, "length %d" % len(ds))
    for i in range(len(ds)):
        x, y = ds[i]
        t = v[i * b + 1:i * b + b + 1]
        require(x.tolist() == v[i * b:i * b + b], "block %d" % i)
        require(y.tolist() == t + [0] * (b - len(t)), "target %d" % i)
        require(x.dtype == y.dtype == torch.int64, "dtype")
    if c["idx"]:
        x, y = ds.get_subset(c["idx"])
        for k, i in enumerate(c["idx"]):
            equal(x[k], ds[i][0], "subset input")
            equal(y[k], ds[i][1], "subset target")
    require(bool((data == kept).all()), "the data was changed")
    return Result(len(ds) > 1 and len(set(c["idx"])) > 1)


# -- accuracy and learning rate --------------------------------------------

@st.composite
def rate_cases(draw):
    return {"dim": draw(st.integers(1, 600)), "warm": draw(st.integers(1, 50)),
            "init": draw(st.integers(0, 60)), "step": draw(st.integers(1, 90)),
            "b": draw(st.integers(1, 4)), "t": draw(st.integers(1, 4)),
            "seed": draw(SEEDS)}


def check_rate(c):
    from dattri.benchmark.models.MusicTransformer.dataset.e_piano import (
        compute_epiano_accuracy,
    )
    from dattri.benchmark.models.MusicTransformer.utilities.lr_scheduling \
        import LrStepTracker
    s = c["step"] + c["init"]
    want = c["dim"] ** -0.5 * min(s ** -0.5, s * c["warm"] ** -1.5)
    got = LrStepTracker(c["dim"], c["warm"], c["init"]).step(c["step"])
    require(math.isclose(got, want, rel_tol=1e-9), "rate %r, not %r" % (
        got, want))
    g = torch.Generator().manual_seed(c["seed"])
    out = torch.randn(c["b"], c["t"], 390, generator=g)
    tgt = torch.randint(0, 390, (c["b"], c["t"]), generator=g)
    how = torch.randint(0, 3, (c["b"], c["t"]), generator=g)
    tgt = torch.where(how == 0, out.argmax(2), tgt)
    tgt = torch.where(how == 1, torch.full_like(tgt, 389), tgt)
    hits = [int(out[i, j].argmax() == tgt[i, j]) for i in range(c["b"])
            for j in range(c["t"]) if tgt[i, j] != 389]
    close(torch.as_tensor(float(compute_epiano_accuracy(out, tgt))),
          torch.tensor(sum(hits) / len(hits) if hits else 1.0), "accuracy",
          rtol=1e-6)
    return Result(0 < sum(hits) < len(hits) and s > c["warm"])


SUBS = [
    Sub("events", event_cases(), check_events, 1200, 12000, shards=2),
    Sub("midi", midi_cases(), check_midi, 900, 9000, shards=4),
    Sub("piano", piano_cases(), check_piano, 1200, 12000, shards=3),
    Sub("text", text_cases(), check_text, 900, 9000, shards=1),
    Sub("rate", rate_cases(), check_rate, 600, 6000, shards=1),
    Sub("pedal", st.just({}), probe_pedal, quick=1, probe_for="midi-no-pedal"),
    Sub("tail", st.just({}), probe_tail, quick=1, probe_for="midi-after-pedal"),
    Sub("velocity", st.just({}), probe_velocity, quick=1,
        probe_for="midi-velocity"),
    Sub("fragment", st.just({}), probe_fragment, quick=1,
        probe_for="piano-first-fragment"),
]
