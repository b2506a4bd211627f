"""P29: the bundled sequence models only look back."""
import contextlib
import io
import math

from pv.core import Result, Sub
from pv.gen import F, SEEDS, close, equal, require, st, torch

PROP = "P29"
RULE = (
    "A case is a random configuration (layers, heads, widths, block size, "
    "vocabulary) of nanoGPT or the Music Transformer (with and without "
    "relative positions) with random weights, and random token batches; or "
    "logits, targets and smoothing for the smoothed cross entropy. Compared "
    "with an independent dense implementation, with the model's own outputs "
    "on every prefix, alone and in a batch, and with greedy decoding done by "
    "hand. Non-trivial: at least three tokens, two sequences and two heads or "
    "layers (loss: an ignored target and positive smoothing)."
)
ASSUMPTIONS = [
    "Models are in evaluation mode; the attention weights' relative term is "
    "q_i . E[len - 1 - (i - j)] as in the cited paper.",
    "Ignored targets of the smoothed loss are vocabulary entries (the recorded "
    "finding covers the default, -100).",
]


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def weights(m, seed, s=0.4):
    g = torch.Generator().manual_seed(seed)
    m.double()
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn(p.shape, generator=g, dtype=p.dtype) * s)
    return m.eval()


def tokens(c, n, t, v, seed=0):
    g = torch.Generator().manual_seed(c["seed"] + 7 + seed)
    return torch.randint(0, v, (n, t), generator=g)


def attend(x, wqkv, bqkv, wo, bo, heads, rel=None):
    """Causal self-attention of one sequence, token by token."""
    t, d = x.shape
    h = d // heads
    qkv = x @ wqkv.T + (0 if bqkv is None else bqkv)
    q, k, v = qkv[:, :d], qkv[:, d:2 * d], qkv[:, 2 * d:]
    out = torch.zeros_like(x)
    for a in range(heads):
        sl = slice(a * h, (a + 1) * h)
        for i in range(t):
            s = [(q[i, sl] @ k[j, sl] + (0 if rel is None else q[i, sl] @ rel[
                len(rel) - 1 - (i - j)])) / math.sqrt(h) for j in range(i + 1)]
            w = torch.softmax(torch.stack(s), 0)
            out[i, sl] = sum(w[j] * v[j, sl] for j in range(i + 1))
    return out @ wo.T + (0 if bo is None else bo)


def norm(x, w, b):
    mu = x.mean(1, keepdim=True)
    var = ((x - mu) ** 2).mean(1, keepdim=True)
    return (x - mu) / (var + 1e-5).sqrt() * w + (0 if b is None else b)


def lin(x, layer):
    return x @ layer.weight.T + (0 if layer.bias is None else layer.bias)


# -- nanoGPT ---------------------------------------------------------------

@st.composite
def gpt_cases(draw):
    heads = draw(st.integers(1, 3))
    block = draw(st.integers(1, 7))
    return {"block": block, "vocab": draw(st.integers(2, 9)),
            "layers": draw(st.integers(1, 2)), "heads": heads,
            "d": heads * draw(st.integers(1, 3)), "bias": draw(st.booleans()),
            "n": draw(st.integers(1, 3)), "t": draw(st.integers(1, block)),
            "crop": draw(st.integers(1, block)), "new": draw(st.integers(0, 9)),
            "ignore": draw(st.booleans()), "seed": draw(SEEDS)}


def make_gpt(c):
    from dattri.benchmark.models.nanoGPT.model import GPT, GPTConfig
    with quiet():
        m = GPT(GPTConfig(block_size=c["block"], vocab_size=c["vocab"],
                          n_layer=c["layers"], n_head=c["heads"],
                          n_embd=c["d"], dropout=0.3, bias=c["bias"]))
    return weights(m, c["seed"])


def gpt_ref(m, seq):
    tr = m.transformer
    x = tr.wte.weight[seq] + tr.wpe.weight[:len(seq)]
    for b in tr.h:
        y = norm(x, b.ln_1.weight, b.ln_1.bias)
        x = x + attend(y, b.attn.c_attn.weight, b.attn.c_attn.bias,
                       b.attn.c_proj.weight, b.attn.c_proj.bias, b.attn.n_head)
        y = lin(norm(x, b.ln_2.weight, b.ln_2.bias), b.mlp.c_fc)
        x = x + lin(y * 0.5 * (1 + torch.erf(y / math.sqrt(2))), b.mlp.c_proj)
    return norm(x, tr.ln_f.weight, tr.ln_f.bias) @ m.lm_head.weight.T


@torch.no_grad()
def check_gpt(c):
    m = make_gpt(c)
    idx = tokens(c, c["n"], c["t"], c["vocab"])
    tgt = tokens(c, c["n"], c["t"], c["vocab"], 1)
    if c["ignore"]:
        tgt[tokens(c, c["n"], c["t"], 2, 2) == 1] = -1
    kept = idx.clone()
    want = torch.stack([gpt_ref(m, s) for s in idx])
    logits, loss = m(idx, tgt)
    close(logits, want, "logits", rtol=1e-8)
    if bool((tgt >= 0).any()):
        logp = torch.log_softmax(want, 2)
        l = [-logp[i, j, tgt[i, j]] for i in range(c["n"])
             for j in range(c["t"]) if tgt[i, j] >= 0]
        close(loss, sum(l) / len(l), "loss", rtol=1e-8)
    for t in range(1, c["t"] + 1):
        last, none = m(idx[:, :t])
        require(none is None and tuple(last.shape) == (
            c["n"], 1, c["vocab"]), "inference returns one position, no loss")
        close(last[:, 0], want[:, t - 1], "prefix %d" % t, rtol=1e-8)
    # greedy generation, longer than the block too
    seq = idx.clone()
    sure = True
    for _ in range(c["new"]):
        o = torch.stack([gpt_ref(m, s[-c["block"]:])[-1] for s in seq])
        top = o.topk(min(2, c["vocab"]), 1).values
        sure = sure and float((top[:, 0] - top[:, -1]).min()) > 1e-6
        seq = torch.cat([seq, o.argmax(1, keepdim=True)], 1)
    out = m.generate(idx, c["new"], temperature=0.7, top_k=1)
    require(tuple(out.shape) == (c["n"], c["t"] + c["new"]), "generated shape")
    equal(out[:, :c["t"]], idx, "the prompt")
    if sure:
        equal(out, seq, "greedy generation")
    torch.manual_seed(c["seed"])
    a = m.generate(idx, c["new"], top_k=2)
    torch.manual_seed(c["seed"])
    equal(m.generate(idx, c["new"], top_k=2), a, "seeded generation")
    cur = idx
    for k in range(c["new"]):
        o = torch.stack([gpt_ref(m, s[-c["block"]:])[-1] for s in cur])
        top = o.topk(2, 1).values[:, 1] - 1e-9
        nxt = a[:, c["t"] + k]
        require(bool((o.gather(1, nxt[:, None])[:, 0] >= top).all()),
                "top_k=2 drew another token")
        cur = a[:, :c["t"] + k + 1]
    m.crop_block_size(c["crop"])
    t = min(c["t"], c["crop"])
    close(m(idx[:, :t], tgt[:, :t].contiguous())[0], want[:, :t], "cropped model",
          rtol=1e-8)
    equal(idx, kept, "the prompt")
    return Result(c["t"] > 2 and c["n"] > 1 and c["layers"] * c["heads"] > 1,
                  ["bias" if c["bias"] else "no bias",
                   "long" if c["t"] + c["new"] > c["block"] else "short"])


# -- Music Transformer -----------------------------------------------------

@st.composite
def music_cases(draw):
    heads = draw(st.integers(1, 3))
    d = heads * draw(st.integers(1, 3))
    t = draw(st.integers(1, 6))
    return {"rpr": draw(st.booleans()), "layers": draw(st.integers(1, 2)),
            "heads": heads, "d": d if d % 2 == 0 else 2 * d,
            "ff": draw(st.integers(1, 5)), "n": draw(st.integers(1, 3)),
            "t": t, "max": t + draw(st.integers(0, 3)),
            "prime": draw(st.integers(1, t)), "seed": draw(SEEDS)}


def make_music(c):
    from dattri.benchmark.models.MusicTransformer.music_transformer import (
        MusicTransformer,
    )
    return weights(MusicTransformer(
        n_layers=c["layers"], num_heads=c["heads"], d_model=c["d"],
        dim_feedforward=c["ff"], dropout=0.3, max_sequence=c["max"],
        rpr=c["rpr"], device="cpu"), c["seed"])


def music_ref(m, seq):
    d = m.d_model
    pos = torch.zeros(len(seq), d, dtype=torch.float64)
    for p in range(len(seq)):
        for i in range(0, d, 2):
            w = math.exp(-math.log(10000.0) * i / d)
            pos[p, i], pos[p, i + 1] = math.sin(p * w), math.cos(p * w)
    x = m.embedding.weight[seq] + pos
    enc = m.transformer.encoder
    for b in enc.layers:
        a = b.self_attn
        y = attend(x, a.in_proj_weight, a.in_proj_bias, a.out_proj.weight,
                   a.out_proj.bias, m.nhead, a.Er if m.rpr else None)
        x = norm(x + y, b.norm1.weight, b.norm1.bias)
        y = lin(torch.relu(lin(x, b.linear1)), b.linear2)
        x = norm(x + y, b.norm2.weight, b.norm2.bias)
    return lin(norm(x, enc.norm.weight, enc.norm.bias), m.Wout)


@torch.no_grad()
def check_music(c):
    m = make_music(c)
    x = tokens(c, c["n"], c["t"], 390)
    want = torch.stack([music_ref(m, s) for s in x])
    got = m(x)
    # the positional table and masks are float32
    close(got, want, "outputs", rtol=1e-5, scale=1.0)
    for t in range(1, c["t"]):
        close(m(x[:, :t]), got[:, :t], "prefix %d" % t, rtol=1e-9, scale=1.0)
    for i in range(c["n"]):
        close(m(x[i:i + 1]), got[i:i + 1], "sequence alone", rtol=1e-9,
              scale=1.0)
    # greedy generation
    seq, sure = x[0, :c["prime"]], True
    while len(seq) < c["t"]:
        o = music_ref(m, seq)[-1][:388]
        top = o.topk(2).values
        sure = sure and float(top[0] - top[1]) > 1e-4
        seq = torch.cat([seq, o.argmax()[None]])
    with quiet():
        out = m.generate(x[0, :c["prime"]], c["t"], beam=1)
    require(tuple(out.shape) == (1, c["t"]), "generated %s" % (out.shape,))
    equal(out[0, :c["prime"]], x[0, :c["prime"]], "the primer")
    if sure:
        equal(out[0], seq, "greedy generation")
    return Result(c["t"] > 2 and c["n"] > 1 and c["layers"] * c["heads"] > 1,
                  ["rpr" if c["rpr"] else "plain"])


def probe_beam(_c):
    """Each row of a beam continues an earlier row with a likely token."""
    m = make_music({"rpr": True, "layers": 1, "heads": 2, "d": 4, "ff": 3,
                    "max": 6, "seed": 1})
    with torch.no_grad(), quiet():
        p = torch.tensor([3, 5])
        out = m.generate(p, 4, beam=2)
        first = [torch.cat([p, t[None]]) for t in
                 music_ref(m, p)[-1][:388].topk(2).indices]
        probs = torch.stack([torch.softmax(music_ref(m, s)[-1], 0)[:388]
                             for s in first]).flatten()
        want = {tuple(first[int(i) // 388].tolist() + [int(i) % 388])
                for i in probs.topk(2).indices}
        require({tuple(r.tolist()) for r in out} == want,
                "the beam holds %s, not %s" % (out.tolist(), want))
    return Result(True)


# -- smoothed cross entropy ------------------------------------------------

@st.composite
def smooth_cases(draw):
    v = draw(st.integers(2, 7))
    n = draw(st.integers(1, 6))
    return {"v": v, "y": [draw(st.integers(0, v - 1)) for _ in range(n)],
            "eps": draw(st.sampled_from([0.0, 0.1, 0.5, 1.0])),
            "ignore": draw(st.sampled_from([None, *range(v)])),
            "red": draw(st.sampled_from(["mean", "sum"])), "seed": draw(SEEDS)}


def check_smooth(c):
    from dattri.benchmark.models.MusicTransformer.loss import (
        SmoothCrossEntropyLoss,
    )
    g = torch.Generator().manual_seed(c["seed"])
    x = torch.randn(len(c["y"]), c["v"], generator=g) * 3
    y = torch.tensor(c["y"])
    kw = {} if c["ignore"] is None else {"ignore_index": c["ignore"]}
    f = SmoothCrossEntropyLoss(c["eps"], c["v"], reduction=c["red"], **kw)
    keep = [i for i, t in enumerate(c["y"]) if t != c["ignore"]]
    if not keep and c["red"] == "mean":
        return Result(False, ["all ignored"])
    logp = torch.log_softmax(x.double(), 1)
    want = sum((-(1 - c["eps"]) * logp[i, y[i]] - c["eps"] * logp[i].mean()
                for i in keep), torch.zeros((), dtype=torch.float64))
    if c["red"] == "mean":
        want = want / len(keep)
    close(f(x, y), want, "loss", rtol=1e-5, scale=1.0)
    want2 = F.cross_entropy(x, y, label_smoothing=c["eps"], reduction=c["red"],
                            **kw)
    close(f(x, y), want2, "torch's smoothed loss", rtol=1e-5, scale=1.0)
    return Result(len(keep) < len(c["y"]) and c["eps"] > 0, [c["red"]])


def probe_ignore(_c):
    """The default ignore_index, -100, marks a target as ignored."""
    from dattri.benchmark.models.MusicTransformer.loss import (
        SmoothCrossEntropyLoss,
    )
    x = torch.tensor([[0.0, 1.0, 2.0], [1.0, 0.0, 0.5]])
    a = SmoothCrossEntropyLoss(0.1, 3)(x, torch.tensor([2, -100]))
    close(a, SmoothCrossEntropyLoss(0.1, 3)(x[:1], torch.tensor([2])), "loss",
          rtol=1e-5)
    return Result(True)


SUBS = [
    Sub("gpt", gpt_cases(), check_gpt, 600, 5000, shards=3),
    Sub("music", music_cases(), check_music, 600, 5000, shards=3),
    Sub("smooth", smooth_cases(), check_smooth, 600, 6000, shards=2),
    Sub("beam", st.just({}), probe_beam, quick=1, probe_for="music-beam"),
    Sub("ignore", st.just({}), probe_ignore, quick=1,
        probe_for="smooth-default-ignore"),
]
