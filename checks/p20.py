"""P20: stored gradients are read back as they were written."""
import contextlib
import pathlib
import threading
import time

from pv.core import Result, Sub, Violation
from pv.gen import require, st, torch

PROP = "P20"
RULE = (
    "A case is a storage back end (none, cpu, disk), layer dimensions, a chunk "
    "size and a history of 1-7 operations: rounds that store gradients or "
    "inverse-Hessian products of batches (in any order, any number of rows, "
    "over batches stored before, with more or fewer batches than before), "
    "reads in the middle of a round, test gradients, preconditioners, clears, "
    "and reopening the directory with another chunk size. After each operation "
    "every batch, and loaders with any batch size and range, are compared with "
    "a plain dictionary. A second search breaks a disk write or a stored file: "
    "the failure must be raised. Non-trivial: something was overwritten, "
    "cleared, reopened, split over chunks or broken."
)
ASSUMPTIONS = [
    "A manager is used with one set of layer dimensions.",
    "Disk rounds start at a multiple of the chunk size (enforced by the code).",
    "On disk a batch index is stored once between clears (known finding "
    "disk-restored).",
    "Saves of one layer's preconditioner on disk do not overlap.",
    "Test gradients are not kept by the disk back end (documented).",
]


def values(c, batch, rows, salt):
    """The layers of one stored batch."""
    g = torch.Generator().manual_seed(c["seed"] + 7919 * batch + 31 * salt)
    return [torch.randn(rows, d, generator=g) if d else torch.tensor([])
            for d in c["dims"]]


ROWS = st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4),
                 st.sampled_from([700, 1100, 2047, 2048, 2049, 2500]))


CHUNKS = st.one_of(*[st.integers(1, 4)] * 5, st.sampled_from([5, 8, 16, 33]))


@st.composite
def histories(draw):
    dims = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
    if len(dims) > 1 and draw(st.integers(0, 6)) == 0:
        dims[draw(st.integers(0, len(dims) - 1))] = 0
    if not any(dims):
        dims[0] = 1
    c = {"kind": draw(st.sampled_from(["none", "cpu", "disk", "disk"])),
         "dims": dims, "chunk": draw(CHUNKS), "seed":
         draw(st.integers(0, 9999)), "ops": []}
    for i in range(draw(st.integers(1, 7))):
        op = draw(st.sampled_from(
            ["grad", "grad", "grad", "ifvp", "ifvp", "pre", "clear", "reopen",
             "test"]))
        if i == 0:
            op = draw(st.sampled_from(["grad", "grad", "grad", "pre", "clear"]))
        o = {"op": op, "salt": i}
        if op in ("grad", "ifvp"):
            lo = draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3, 7, 10, 97, 998]))
            n = draw(st.one_of(*[st.integers(1, 6)] * 7,
                               st.integers(7, 20)))
            ids = list(range(n))
            if draw(st.integers(0, 2)) == 0:
                ids = draw(st.permutations(ids))
            if draw(st.integers(0, 3)) == 0:
                # part of the batches, some of them twice
                ids = draw(st.lists(st.integers(0, n - 1), min_size=1,
                                    max_size=n + 2))
            o["lo"], o["n"] = lo, n
            o["ids"] = [[b, draw(ROWS)] for b in ids]
            o["peek"] = draw(st.booleans())
        elif op == "pre":
            o["layers"] = draw(st.lists(
                st.tuples(st.integers(0, len(dims) - 1), st.booleans()),
                min_size=1, max_size=4))
        elif op == "test":
            o["ids"] = [[draw(st.integers(0, 3)), draw(st.integers(1, 3))]
                        for _ in range(draw(st.integers(1, 3)))]
        elif op == "reopen":
            o["chunk"] = draw(CHUNKS)
        o["probe"] = {"bs": draw(st.integers(1, 4)), "range": draw(st.one_of(
            st.none(), st.tuples(st.integers(0, 5), st.sampled_from(
                [7, *range(7), 10, 15, 50, 105]))))}
        c["ops"].append(o)
    if c["kind"] == "disk" and draw(st.integers(0, 5)) == 0:
        # slow, uneven disk: writes stay under way while others are submitted
        c["slow"] = draw(st.lists(st.sampled_from([0, 0, 5, 20, 60]),
                                  min_size=1, max_size=5))
        if draw(st.booleans()):
            c["chunk"] = 1
            n = draw(st.integers(10, 24))
            c["ops"][0] = {**c["ops"][-1], "op": "grad", "salt": 0, "lo": 0,
                           "n": n, "ids": [[b, draw(st.integers(1, 3))]
                                           for b in range(n)],
                           "peek": draw(st.booleans())}
    return c


@contextlib.contextmanager
def slow_disk(delays):
    """Every write of a chunk or preconditioner starts late (in ms)."""
    if not delays:
        yield
        return
    from dattri.algorithm.block_projected_if.offload.disk_io import memory_map

    handler = memory_map.ChunkedMemoryMapHandler
    write, save, count = handler.write_chunk, torch.save, [0]

    def late(fn):
        def run(*args, **kwargs):
            count[0] += 1
            time.sleep(delays[count[0] % len(delays)] / 1000)
            return fn(*args, **kwargs)

        return run

    handler.write_chunk = staticmethod(late(write))
    torch.save = late(save)
    try:
        yield
    finally:
        handler.write_chunk = staticmethod(write)
        torch.save = save


def make_manager(c, chunk):
    from dattri.algorithm.block_projected_if.offload import (
        create_offload_manager)

    return create_offload_manager(
        offload_type=c["kind"], device="cpu",
        layer_names=["l%d" % i for i in range(len(c["dims"]))],
        # absolute: a late write of a broken tree must not follow the process
        cache_dir=str(pathlib.Path("store").resolve()), chunk_size=chunk)


def same(got, want, what):
    require(len(got) == len(want), "%s: %d layers, expected %d" % (
        what, len(got), len(want)))
    for j, (g, w) in enumerate(zip(got, want)):
        if w.numel() == 0:
            require(g.numel() == 0, "%s, layer %d: expected nothing" % (what, j))
            continue
        require(tuple(g.shape) == tuple(w.shape), "%s, layer %d: shape %s, "
                "stored %s" % (what, j, tuple(g.shape), tuple(w.shape)))
        require(torch.equal(g, w), "%s, layer %d: other values than stored" % (
            what, j))


def check_loader(m, c, kind, model, probe, what, is_test=False):
    kw = {"is_test": True} if is_test else {}
    rng = None if probe["range"] is None else tuple(probe["range"])
    want = {b: v for b, v in model.items()
            if rng is None or rng[0] <= b < rng[1]}
    loader = m.create_gradient_dataloader(
        kind, batch_size=probe["bs"], batch_range=rng, **kw)
    seen, rows = {}, 0
    require(len(want) == 0 or loader is not None, what + ": no loader")
    for tensor, mapping in loader if loader is not None else ():
        rows += tensor.shape[0]
        for b, (lo, hi) in mapping.items():
            require(b not in seen, "%s: batch %d twice" % (what, b))
            seen[b] = tensor[lo:hi]
    require(set(seen) == set(want), "%s: batches %s, stored %s" % (
        what, sorted(seen), sorted(want)))
    require(rows == sum(int(v[0]) for v in want.values()),
            "%s: %d rows, stored %d" % (
                what, rows, sum(int(v[0]) for v in want.values())))
    for b, (_, layers) in want.items():
        flat = torch.cat([x for x in layers if x.numel()], 1)
        require(torch.equal(seen[b], flat),
                "%s: batch %d has other values than stored" % (what, b))


def compare(m, c, model, probe, what, loaders=True):
    nothing = [torch.tensor([])] * len(c["dims"])
    for kind, read in (("grad", m.retrieve_gradients),
                       ("ifvp", m.retrieve_ifvp)):
        if not model["dims_known"] and not model[kind]:
            continue
        for b in {*range(9), *model[kind]}:
            want = model[kind].get(b)
            same(read(b), want[1] if want else nothing,
                 "%s: %s of batch %d" % (what, kind, b))
        if loaders:
            check_loader(m, c, {"grad": "gradients"}.get(kind, kind),
                         model[kind], probe, "%s: %s loader" % (what, kind))
    if c["kind"] != "disk":
        for b in range(4):
            want = model["test"].get(b)
            same(m.retrieve_gradients(b, is_test=True),
                 want[1] if want else nothing,
                 "%s: test batch %d" % (what, b))
        check_loader(m, c, "gradients", model["test"], probe,
                     what + ": test loader", is_test=True)
    for j in range(len(c["dims"])):
        got, want = m.retrieve_preconditioner(j), model["pre"].get(j)
        if want is None:
            require(got is None, "%s: preconditioner %d appeared" % (what, j))
        else:
            require(got is not None and torch.equal(got, want),
                    "%s: preconditioner %d differs" % (what, j))
    require(m.has_preconditioners() == bool(model["pre"]),
            "%s: has_preconditioners() is %s" % (what, m.has_preconditioners()))
    if loaders:
        require(m.has_ifvp() == bool(model["ifvp"]),
                "%s: has_ifvp() is %s" % (what, m.has_ifvp()))


def fresh():
    return {"grad": {}, "ifvp": {}, "test": {}, "pre": {}, "dims_known": False}


def check_history(c):
    with slow_disk(c.get("slow")):
        return history(c)


def history(c):
    torch.set_default_dtype(torch.float32)
    chunk = c["chunk"]
    m = make_manager(c, chunk)
    model = fresh()
    tags = {c["kind"]}
    if c.get("slow"):
        tags.add("slow")
    for i, o in enumerate(c["ops"]):
        what = "after operation %d (%s)" % (i, o["op"])
        if o["op"] in ("grad", "ifvp"):
            if o["op"] == "ifvp" and not model["dims_known"]:
                continue
            start = o["lo"] * chunk
            disk = c["kind"] == "disk"
            if hasattr(m, "start_batch_range_processing"):
                m.start_batch_range_processing(start, start + o["n"])
            else:
                require(not disk, "no rounds in the disk back end")
            for k, (b, rows) in enumerate(o["ids"]):
                b = start + b
                v = values(c, b, rows, o["salt"] * 10 + k)
                if b in model[o["op"]]:
                    if disk:
                        continue  # see restored: a known finding
                    tags.add("overwrite")
                (m.store_gradients if o["op"] == "grad" else m.store_ifvp)(
                    b, [x.clone() for x in v])
                model[o["op"]][b] = (rows, v)
                model["dims_known"] = True
                if o["peek"]:
                    same((m.retrieve_gradients if o["op"] == "grad"
                          else m.retrieve_ifvp)(b), v,
                         "batch %d read in the middle of operation %d" % (b, i))
                    tags.add("peek")
            if o["peek"]:
                compare(m, c, model, o["probe"], "at the end of round %d" % i,
                        loaders=not disk)
            if hasattr(m, "finish_batch_range_processing"):
                m.finish_batch_range_processing()
            if disk and len({(start + b) // chunk for b, _ in o["ids"]}) > 1:
                tags.add("chunks")
            if sum(r for _, r in o["ids"]) > 2048:
                tags.add("overflow")
        elif o["op"] == "test":
            if c["kind"] == "disk":
                continue
            for k, (b, rows) in enumerate(o["ids"]):
                v = values(c, b, rows, o["salt"] * 10 + k + 500)
                m.store_gradients(b, [x.clone() for x in v], is_test=True)
                model["test"][b] = (rows, v)
                model["dims_known"] = True
        elif o["op"] == "pre":
            for k, (j, some) in enumerate(o["layers"]):
                d = c["dims"][j]
                g = torch.Generator().manual_seed(c["seed"] + i * 100 + k)
                p = torch.randn(d, d, generator=g) if some else None
                # two saves of one layer may not be under way at once
                m.wait_for_async_operations()
                m.store_preconditioner(j, None if p is None else p.clone())
                if p is None and c["kind"] == "disk":
                    continue  # "None to skip"
                model["pre"].pop(j, None)
                if p is not None:
                    model["pre"][j] = p
            m.wait_for_async_operations()
        elif o["op"] == "clear":
            m.clear_cache()
            model = {**fresh(), "dims_known":
                     model["dims_known"] and c["kind"] != "disk"}
            tags.add("clear")
        elif o["op"] == "reopen":
            if c["kind"] != "disk":
                continue
            m.wait_for_async_operations()
            chunk = o["chunk"]
            m = make_manager(c, chunk)
            model["dims_known"] = bool(model["grad"] or model["ifvp"])
            tags.add("reopen")
        compare(m, c, model, o["probe"], what)
    return Result(bool(tags & {"overwrite", "clear", "reopen", "chunks"}),
                  sorted(tags))


# ------------------------------------------------------------- failures
@st.composite
def fault_cases(draw):
    n = draw(st.integers(1, 5))
    return {"kind": "disk", "dims": draw(st.lists(st.integers(1, 3), min_size=1,
                                                  max_size=2)),
            "chunk": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 999)),
            "rows": [draw(st.integers(1, 3)) for _ in range(n)],
            "fault": draw(st.sampled_from(
                ["dir-grad", "dir-ifvp", "dir-pre", "cut-data", "cut-meta",
                 "no-data", "empty-meta"])),
            "pick": draw(st.integers(0, 9)), "bs": draw(st.integers(1, 3)),
            "via": draw(st.sampled_from(["loader", "read"])),
            "warm": draw(st.booleans())}


def bounded(fn, what):
    """Run fn in a thread; a call that never returns is a violation."""
    out = {}

    def run():
        try:
            out["value"] = fn()
        except Exception as e:  # noqa: BLE001
            out["error"] = e

    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join(20)
    if t.is_alive():
        raise Violation("%s never returns after a failed write" % what)
    return out


def store_round(m, c, kind):
    m.start_batch_range_processing(0, len(c["rows"]))
    for b, r in enumerate(c["rows"]):
        (m.store_gradients if kind == "grad" else m.store_ifvp)(
            b, values(c, b, r, 0 if kind == "grad" else 1))
    m.finish_batch_range_processing()


def check_fault(c):
    torch.set_default_dtype(torch.float32)
    m = make_manager(c, c["chunk"])
    f = c["fault"]
    store = pathlib.Path("store")
    if f.startswith("dir-"):
        sub = {"dir-grad": "grad", "dir-ifvp": "ifvp", "dir-pre": "precond"}[f]
        if f != "dir-grad":
            store_round(m, c, "grad")
        d = store / sub
        if d.exists():
            d.rmdir()
        d.write_text("a file where the directory should be")
        if f == "dir-pre":
            def run():
                m.store_preconditioner(0, torch.eye(c["dims"][0]))
                m.wait_for_async_operations()
                return m.retrieve_preconditioner(0)
        else:
            def run():
                store_round(m, c, sub)
                return True
        out = bounded(run, "a round")
        require("error" in out, "a write that failed was not reported")
        return Result(True, (f,))
    store_round(m, c, "grad")
    if c["warm"]:
        m.retrieve_gradients(0)
    files = sorted((store / "grad").iterdir())
    data = [p for p in files if p.suffix == ".mmap"]
    meta = [p for p in files if p.suffix == ".json"]
    if len(data) != len(meta) or not data:
        # another file layout: nothing this search knows how to break
        return Result(False, ("layout",))
    victim = (data if "data" in f else meta)[c["pick"] % len(data)]
    raw = victim.read_bytes()
    if f == "no-data":
        victim.unlink()
    elif f == "empty-meta":
        victim.write_bytes(b"")
    else:
        victim.write_bytes(raw[:len(raw) // 2])
    m = make_manager(c, c["chunk"]) if c["pick"] % 2 else m
    want = {b: torch.cat(values(c, b, r, 0), 1) for b, r in enumerate(c["rows"])}

    def run():
        if c["via"] == "loader":
            got = {}
            for t, mp in m.create_gradient_dataloader("gradients",
                                                      batch_size=c["bs"]):
                for b, (lo, hi) in mp.items():
                    got[b] = t[lo:hi]
            return got
        return {b: torch.cat(m.retrieve_gradients(b), 1) for b in want}

    out = bounded(run, "reading")
    if "error" in out:
        return Result(True, (f, c["via"], "raised"))
    got = out["value"]
    ok = set(got) == set(want) and all(
        got[b].shape == want[b].shape and torch.equal(got[b], want[b])
        for b in want)
    require(ok, "a stored file is broken (%s), and the loader silently returned "
            "batches %s of %s" % (f, sorted(got), sorted(want)))
    return Result(True, (f, c["via"], "intact"))


# --------------------------------------------------------- chunk files
@st.composite
def chunk_cases(draw):
    n = draw(st.integers(1, 5))
    files = []
    start = draw(st.sampled_from([0, 0, 3, 8, 95, 996]))
    for _ in range(n):
        k = draw(st.integers(1, 4))
        ids = list(draw(st.permutations(range(start, start + k))))
        files.append([[b, draw(st.integers(1, 4))] for b in ids])
        start += k + draw(st.integers(0, 6))
    return {"files": [files[i] for i in draw(st.permutations(range(n)))],
            "dims": draw(st.lists(st.integers(0, 3), min_size=1, max_size=3)
                         .filter(any)),
            "type": draw(st.sampled_from(["gradients", "ifvp"])),
            "dtype": draw(st.sampled_from(["float32", "bfloat16", "float64"])),
            "flush": draw(st.sampled_from(["async", "sync", "none", None])),
            "range": draw(st.tuples(st.integers(0, 12), st.integers(0, 12))),
            "cut": draw(st.sampled_from([None, "data", "meta", "no-data",
                                         "no-meta", "empty-meta"])),
            "seed": draw(st.integers(0, 999))}


def check_chunks(c):
    from dattri.algorithm.block_projected_if.offload.disk_io.memory_map import (
        ChunkedMemoryMapHandler as handler)

    g = torch.Generator().manual_seed(c["seed"])
    dtype = getattr(torch, c["dtype"])
    kw = {} if c["flush"] is None else {"flush_mode": c["flush"]}
    if dtype == torch.float64:
        kw["dtype"] = "float64"
    want, order = {}, []
    path = str(pathlib.Path("store") / "sub")
    other = "ifvp" if c["type"] == "gradients" else "gradients"
    for k, ids in enumerate(c["files"]):
        t = torch.randn(sum(r for _, r in ids), sum(c["dims"]),
                        generator=g).to(dtype)
        info, row = [], 0
        for b, r in ids:
            info.append({"batch_idx": b, "start_row": row, "end_row": row + r})
            row += r
        name = handler.write_chunk(path, c["type"], t.clone(), info, c["dims"],
                                   **kw)
        if k % 2:
            handler.write_chunk(path, other, t * 2 + 1, info, c["dims"], **kw)
        want[name] = (t, {b: t[i["start_row"]:i["end_row"]]
                          for (b, _), i in zip(ids, info)}, info)
        order.append((min(b for b, _ in ids), name))
    names = handler.find_chunk_files(path, c["type"])
    require(names == [n for _, n in sorted(order)],
            "the chunks found are %s, written %s" % (names, sorted(order)))
    require(handler.find_chunk_files(path + "-none", c["type"]) == [],
            "chunks in a directory that does not exist")
    lo = min(b for ids in c["files"] for b, _ in ids) + c["range"][0]
    rng = (lo, lo + c["range"][1])
    for name, (t, batches, info) in want.items():
        meta = handler.read_chunk_metadata(path, name)
        require(meta["batches"] == info and meta["layer_dims"] == c["dims"]
                and tuple(meta["shape"]) == tuple(t.shape),
                "metadata of %s: %s" % (name, meta))
        reads = [("loaded", handler.load_chunk_tensor(path, name)[0])]
        for force in (True, False):
            with handler.read_chunk(path, name, force_load=force) as (x, m):
                require(m == meta, "read_chunk has other metadata")
                reads.append(("read, force_load=%s" % force, x.clone()))
                if not force:
                    x += 1  # copy on write: the file stays as it is
        reads.append(("read again", handler.load_chunk_tensor(path, name)[0]))
        for how, x in reads:
            require(x.dtype == dtype and torch.equal(x, t),
                    "%s, %s: other values than written" % (name, how))
        for b in [*batches, -1, 5000]:
            x = handler.load_batch_slice(path, name, b)
            if b in batches:
                require(x is not None and x.dtype == dtype
                        and torch.equal(x, batches[b]),
                        "%s: other slice of batch %d than written" % (name, b))
            else:
                require(x is None, "%s: a slice of batch %d" % (name, b))
        for r in (None, rng):
            x, where = handler.load_chunk_batch_range(path, name, r)
            inside = [b for b in batches
                      if r is None or r[0] <= b < r[1]]
            require(set(where) == set(inside), "%s, range %s: batches %s, "
                    "expected %s" % (name, r, sorted(where), sorted(inside)))
            require(x.shape[0] == sum(len(batches[b]) for b in inside)
                    and x.shape[1] == t.shape[1], "%s, range %s: shape %s" % (
                        name, r, tuple(x.shape)))
            for b in inside:
                require(torch.equal(x[where[b][0]:where[b][1]], batches[b]),
                        "%s, range %s: other rows of batch %d" % (name, r, b))
        require(handler.ensure_chunk_written(path, name, timeout=5.0) is True,
                "%s is complete, but not reported so" % name)
    require(handler.ensure_chunk_written(path, "chunk_%s_7777_7777" % c["type"],
                                         timeout=0.01) is False,
            "a chunk never written is reported as written")
    if c["cut"]:
        name = names[0]
        data = pathlib.Path(path) / (name + ".mmap")
        meta = pathlib.Path(path) / (name + "_metadata.json")
        if not (data.exists() and meta.exists()):
            return Result(False, ("layout",))
        victim = data if "data" in c["cut"] and "meta" not in c["cut"] else meta
        raw = victim.read_bytes()
        if c["cut"].startswith("no-"):
            victim.unlink()
        elif c["cut"].startswith("empty"):
            victim.write_bytes(b"")
        else:
            victim.write_bytes(raw[:len(raw) - 1])
        require(handler.ensure_chunk_written(path, name, timeout=0.01) is False,
                "an unfinished chunk (%s) is reported as written" % c["cut"])
    return Result(len(c["files"]) > 1, (
        c["dtype"], str(c["flush"]), *([c["cut"]] if c["cut"] else [])))


def probe_restored(_c):
    """A batch stored again on disk without a clear in between."""
    torch.set_default_dtype(torch.float32)
    c = {"kind": "disk", "dims": [2], "chunk": 2, "seed": 0}
    m = make_manager(c, 2)
    for salt in (0, 1):
        m.start_batch_range_processing(0, 1)
        m.store_gradients(0, values(c, 0, 3, salt))
        m.finish_batch_range_processing()
    m.start_batch_range_processing(0, 2)
    for b in (0, 1):
        m.store_gradients(b, values(c, b, 3, 2))
    m.finish_batch_range_processing()
    model = {b: (3, values(c, b, 3, 2)) for b in (0, 1)}
    check_loader(m, c, "gradients", model, {"bs": 1, "range": None}, "loader")


SUBS = [
    Sub("history", histories(), check_history, 480, 6000, shards=8),
    Sub("fault", fault_cases(), check_fault, 96, 1000, shards=8),
    Sub("chunks", chunk_cases(), check_chunks, 160, 3000, shards=4),
    Sub("restored", st.just({}), probe_restored, quick=1,
        probe_for="disk-restored"),
]
