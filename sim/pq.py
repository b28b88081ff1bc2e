"""Parquet: real pyarrow and polars on bytes read through the simulated filesystem (their own I/O would bypass it), and stand-ins
for fsspec's object stores and for the Hugging Face hub. `install()` runs before a scenario forks off, once."""
from __future__ import annotations

import io
import os
import sys
import types

from . import core, fs as simfs
from .stubs import _pt, cloud, _client_error

_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import fsspec
    import polars as pl
    import pyarrow as pa
    import pyarrow.parquet as pq
    import functools
    Real = pq.ParquetFile

    def source(src):
        if isinstance(src, (str, os.PathLike)):
            with open(src, "rb") as f:
                return pa.BufferReader(f.read())
        if isinstance(src, io.BytesIO):
            return pa.BufferReader(src.getvalue())
        return src

    class ParquetFile(Real):
        def __init__(self, src, *a, **kw):
            kw.pop("memory_map", None)
            super().__init__(source(src), *a, **kw)

        def read_row_group(self, i, *a, **kw):
            kw["use_threads"] = False
            return super().read_row_group(i, *a, **kw)

        def read(self, *a, **kw):
            kw["use_threads"] = False
            return super().read(*a, **kw)

    pq.ParquetFile = ParquetFile

    class Lazy:
        def __init__(self, path):
            self.path = path

        def collect(self, *a, **kw):
            return pl.from_arrow(ParquetFile(self.path).read())

    pl.scan_parquet = lambda src, *a, **kw: Lazy(src)
    pl.read_parquet = lambda src, *a, **kw: Lazy(src).collect()

    class Reader(io.RawIOBase):
        def __init__(self, name):
            self.name, self.pos = name, 0
            if name not in cloud().objects:
                raise FileNotFoundError(name)

        def seek(self, off, whence=0):
            self.pos = off + (0, self.pos, len(cloud().objects[self.name]))[whence]
            return self.pos

        def tell(self):
            return self.pos

        def readable(self):
            return True

        def seekable(self):
            return True

        def read(self, n=-1):
            eff = _pt("s3.get", self.name, "GetObject")
            data = cloud().objects[self.name]
            end = len(data) if n is None or n < 0 else min(len(data), self.pos + n)
            if eff is not None and eff["effect"] == "cloud_partial":
                end = self.pos + (end - self.pos) // 2
            out = data[self.pos:end]
            self.pos = end
            return out

    class Writer(io.BytesIO):
        def __init__(self, name):
            super().__init__()
            self.dest = name

        def __exit__(self, et, ev, tb):
            if et is None or issubclass(et, Exception):
                self.close()

        def close(self):
            if not self.closed:
                data = self.getvalue()
                super().close()
                t = core.SIM.current()
                if t is None or t.killed:
                    return
                _pt("s3.put", self.dest, "PutObject", mut=True)
                cloud().objects[self.dest] = data
                cloud().record("put", self.dest)

    class FS:
        def __init__(self, proto, kw):
            self.proto = proto
            core.SIM.__dict__.setdefault("fsspec_kw", []).append(kw)

        def strip(self, p):
            p = p.split("://", 1)[1] if "://" in p else p
            return p.rstrip("/")

        def ls(self, path, detail=True, **kw):
            _pt("s3.list", self.strip(path), "ListObjects")
            pre = self.strip(path) + "/"
            out, dirs = [], set()
            for k, v in cloud().objects.items():
                if k.startswith(pre):
                    rest = k[len(pre):]
                    if "/" in rest:
                        dirs.add(pre + rest.split("/", 1)[0])
                    else:
                        out.append({"name": k, "size": len(v), "type": "file"})
            out += [{"name": d, "size": 0, "type": "directory"} for d in sorted(dirs)]
            r = core.SIM.fs.list_rng
            if r is not None:
                r.shuffle(out)
            return out if detail else [o["name"] for o in out]

        def open(self, path, mode="rb", **kw):
            return Writer(self.strip(path)) if "w" in mode else Reader(self.strip(path))

    fsspec.filesystem = lambda proto, **kw: FS(proto, kw)

    hub = types.ModuleType("huggingface_hub")
    hub.HfFileSystem = lambda *a, **kw: FS("hf", kw)

    def hf_hub_download(repo_id, filename, cache_dir=None, repo_type=None, **kw):
        name = f"{repo_type}s/{repo_id}/{filename}"
        eff = _pt("s3.get", name, "GetObject")
        c = cloud()
        c.record("get", name)
        if name not in c.objects:
            raise FileNotFoundError(name)
        data = c.objects[name]
        d = os.path.join(cache_dir, "blobs")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, os.path.basename(filename))
        with open(path + ".incomplete", "wb") as f:
            for o in range(0, len(data), 4000):
                if eff is not None and eff["effect"] == "cloud_partial" and o:
                    raise ConnectionError("the download was interrupted")
                f.write(data[o:o + 4000])
                simfs.point("s3.chunk", "/s3/chunk")
        os.replace(path + ".incomplete", path)
        return path

    hub.hf_hub_download = hf_hub_download
    sys.modules["huggingface_hub"] = hub
