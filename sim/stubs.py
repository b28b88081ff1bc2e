"""Stubs for what lives outside the process tree: object stores and HTTP. State is per simulation (`sim.cloud`, `sim.http`).

S3 follows the documented semantics litdata relies on: strongly consistent, atomic puts, listings of at most 1000 keys per
page, `download_file` through a temporary file that is renamed, `head_object` on a missing key raising ClientError 404."""
from __future__ import annotations

import json
import os

from . import core, fs as simfs, shims
from .core import HarnessError


class Cloud:
    """The objects of every bucket, with history."""

    def __init__(self, sim, page=1000, latency=None):
        self.sim = sim
        self.objects = {}       # "bucket/key" -> bytes
        self.page = page
        self.history = []       # (time, proc, op, "bucket/key")
        self.observers = []     # f(op, "bucket/key") after a mutation took effect
        self.clients = []       # (created_at, kwargs)
        self.part = 300         # bytes per chunk of a download
        self.now_get = 0

    def record(self, op, name):
        t = self.sim.current()
        self.history.append((self.sim.now, t.proc.name if t else "?", op, name))
        for f in self.observers:
            f(op, name)

    def listing(self, bucket, prefix):
        pre = bucket + "/"
        return sorted(k[len(pre):] for k in self.objects if k.startswith(pre + prefix))


def cloud():
    s = core.SIM
    c = getattr(s, "cloud", None)
    if c is None:
        c = s.cloud = Cloud(s)
        s.fs.classes.append(("/s3/", "s3"))
        s.fs.classes.append(("/gs/", "s3"))
    return c


def _client_error(code, status, op, msg):
    from botocore.exceptions import ClientError
    return ClientError({"Error": {"Code": code, "Message": msg}, "ResponseMetadata": {"HTTPStatusCode": status}}, op)


def _pt(kind, name, op, mut=False):
    eff = simfs.point(kind, "/s3/" + name, mut=mut)
    if eff is not None:
        e = eff["effect"]
        if e == "cloud_500":
            raise _client_error("500", 500, op, "Internal Server Error")
        if e == "cloud_503":
            raise _client_error("SlowDown", 503, op, "Please reduce your request rate.")
        if e == "cloud_conn":
            from botocore.exceptions import EndpointConnectionError
            raise EndpointConnectionError(endpoint_url="https://s3.stub")
    return eff


class S3Stub:
    def __init__(self, kwargs):
        c = cloud()
        self.created = core.SIM.now
        self.kwargs = {k: v for k, v in kwargs.items() if k != "config"}
        c.clients.append(self)

    def __reduce_ex__(self, protocol):
        raise TypeError("cannot pickle 'S3' object")        # like a client of boto3

    def _check(self, op):
        ttl = getattr(core.SIM, "cred_ttl", None)
        if ttl is not None and core.SIM.now - self.created > ttl:
            core.SIM.fired("expired_credentials_used")
            raise _client_error("ExpiredToken", 400, op, "The provided token has expired.")

    # -- reads
    def _get(self, name, op, notfound):
        c = cloud()
        self._check(op)
        eff = _pt("s3.get", name, op)
        if name not in c.objects:
            raise notfound
        return c.objects[name], eff

    def _stream(self, data, eff, write):
        c = cloud()
        cut = None
        if eff is not None and eff["effect"] == "cloud_partial":
            cut = int(len(data) * eff.get("frac", 0.5))
        off = 0
        while off < len(data):
            n = c.part
            if cut is not None and off >= cut:
                from botocore.exceptions import IncompleteReadError
                raise IncompleteReadError(actual_bytes=off, expected_bytes=len(data))
            write(data[off:off + n])
            off += n
            if off < len(data):
                simfs.point("s3.chunk", "/s3/chunk")

    def download_file(self, Bucket, Key, Filename, ExtraArgs=None, Callback=None, Config=None):
        name = f"{Bucket}/{Key}"
        c = cloud()
        c.record("get", name)
        data, eff = self._get(name, "HeadObject", _client_error("404", 404, "HeadObject", "Not Found"))
        tmp = Filename + "." + core.SIM.rnd_bytes(4).hex()
        ok = False
        try:
            with open(tmp, "wb") as f:
                self._stream(data, eff, f.write)
            os.replace(tmp, Filename)
            ok = True
        finally:
            t = core.SIM.current()
            if not ok and t is not None and not t.killed:
                try:
                    os.remove(tmp)
                except OSError:
                    pass

    def download_fileobj(self, Bucket, Key, Fileobj, **kw):
        name = f"{Bucket}/{Key}"
        c = cloud()
        c.record("get", name)
        data, eff = self._get(name, "HeadObject", _client_error("404", 404, "HeadObject", "Not Found"))
        self._stream(data, eff, Fileobj.write)

    def get_object(self, Bucket, Key, **kw):
        import io
        name = f"{Bucket}/{Key}"
        data, eff = self._get(name, "GetObject", _client_error("NoSuchKey", 404, "GetObject", "The specified key does not exist."))
        return {"Body": io.BytesIO(data), "ContentLength": len(data)}

    def head_object(self, Bucket, Key, **kw):
        name = f"{Bucket}/{Key}"
        self._check("HeadObject")
        _pt("s3.head", name, "HeadObject")
        c = cloud()
        if name not in c.objects:
            raise _client_error("404", 404, "HeadObject", "Not Found")
        return {"ContentLength": len(c.objects[name])}

    def list_objects_v2(self, Bucket, Prefix="", Delimiter=None, ContinuationToken=None, StartAfter=None, MaxKeys=1000, **kw):
        c = cloud()
        self._check("ListObjectsV2")
        _pt("s3.list", f"{Bucket}/{Prefix}", "ListObjectsV2")
        keys = c.listing(Bucket, Prefix)
        after = ContinuationToken or StartAfter
        contents, common = [], []
        n = 0
        page = min(c.page, MaxKeys)
        last = None
        truncated = False
        for k in keys:
            cp = None
            if Delimiter:
                rest = k[len(Prefix):]
                if Delimiter in rest:
                    cp = Prefix + rest.split(Delimiter)[0] + Delimiter
            if after is not None and (k <= after or (cp is not None and cp <= after)):
                continue
            if cp is not None:
                if common and common[-1] == cp:
                    continue
                if n >= page:
                    truncated = True
                    break
                common.append(cp)
                last = cp + "\uffff"
            else:
                if n >= page:
                    truncated = True
                    break
                contents.append({"Key": k, "Size": len(c.objects[f"{Bucket}/{k}"])})
                last = k
            n += 1
        out = {"KeyCount": n, "IsTruncated": truncated, "Name": Bucket, "Prefix": Prefix, "MaxKeys": MaxKeys}
        if contents:
            out["Contents"] = contents
        if common:
            out["CommonPrefixes"] = [{"Prefix": x} for x in common]
        if truncated:
            out["NextContinuationToken"] = last
        return out

    def list_objects(self, Bucket, Prefix="", Delimiter=None, Marker=None, **kw):
        return self.list_objects_v2(Bucket, Prefix, Delimiter, Marker, **kw)

    def get_paginator(self, op):
        client = self

        class P:
            def paginate(self, **kw):
                kw.pop("PaginationConfig", None)
                tok = None
                while True:
                    r = client.list_objects_v2(**kw, ContinuationToken=tok) if tok else client.list_objects_v2(**kw)
                    yield r
                    tok = r.get("NextContinuationToken")
                    if not tok:
                        return

        return P()

    # -- writes
    def _put(self, name, data, op):
        c = cloud()
        self._check(op)
        eff = _pt("s3.put", name, op, mut=True)
        c.objects[name] = data
        c.record("put", name)
        if eff is not None and eff["effect"] == "cloud_after":  # took effect, but the reply is lost
            from botocore.exceptions import ConnectionClosedError
            raise ConnectionClosedError(endpoint_url="https://s3.stub")

    def upload_file(self, Filename, Bucket, Key, ExtraArgs=None, Callback=None, Config=None):
        with open(Filename, "rb") as f:
            data = f.read()
        try:
            self._put(f"{Bucket}/{Key}", data, "PutObject")
        except Exception as e:
            from boto3.exceptions import S3UploadFailedError
            raise S3UploadFailedError("Failed to upload %s to %s: %s" % (Filename, f"{Bucket}/{Key}", e))

    def upload_fileobj(self, Fileobj, Bucket, Key, **kw):
        self._put(f"{Bucket}/{Key}", Fileobj.read(), "PutObject")

    def put_object(self, Bucket, Key, Body=b"", **kw):
        data = Body.read() if hasattr(Body, "read") else bytes(Body)
        self._put(f"{Bucket}/{Key}", data, "PutObject")
        return {}

    def copy(self, CopySource, Bucket, Key, **kw):
        src = f"{CopySource['Bucket']}/{CopySource['Key']}"
        data, _ = self._get(src, "HeadObject", _client_error("404", 404, "HeadObject", "Not Found"))
        self._put(f"{Bucket}/{Key}", data, "CopyObject")

    def copy_object(self, CopySource, Bucket, Key, **kw):
        return self.copy(CopySource, Bucket, Key)

    def delete_object(self, Bucket, Key, **kw):
        c = cloud()
        name = f"{Bucket}/{Key}"
        self._check("DeleteObject")
        _pt("s3.del", name, "DeleteObject", mut=True)
        c.objects.pop(name, None)
        c.record("del", name)
        return {}

    def delete_objects(self, Bucket, Delete, **kw):
        for o in Delete["Objects"]:
            self.delete_object(Bucket, o["Key"])
        return {"Deleted": Delete["Objects"]}


class SessionStub:
    def __init__(self, *a, **k):
        self.kw = k

    def client(self, service, **kw):
        if core.SIM is None:
            raise HarnessError("boto3 client outside a simulation")
        if service != "s3":
            raise HarnessError("service " + service)
        eff = simfs.point("s3.client", "/s3/client")
        if eff is not None and eff["effect"].startswith("cloud"):
            raise _client_error("500", 500, "AssumeRole", "Internal Server Error")
        return S3Stub(kw)

    def get_credentials(self):
        return None


# ------------------------------------------------------------------------------------------------- GCS
class _GBlob:
    def __init__(self, bucket, name):
        self.bucket = bucket
        self.name = name

    @property
    def _full(self):
        return f"{self.bucket.name}/{self.name}"

    def _nf(self):
        from google.api_core.exceptions import NotFound
        return NotFound("No such object: " + self._full)

    def _pt(self, kind, mut=False):
        eff = simfs.point(kind, "/gs/" + self._full, mut=mut)
        if eff is not None and eff["effect"] in ("cloud_500", "cloud_503", "cloud_conn"):
            from google.api_core.exceptions import ServiceUnavailable
            raise ServiceUnavailable("stub")
        return eff

    def upload_from_filename(self, filename, **kw):
        with open(filename, "rb") as f:
            data = f.read()
        self._pt("s3.put", True)
        cloud().objects[self._full] = data
        cloud().record("put", self._full)

    def download_to_filename(self, filename, **kw):
        c = cloud()
        c.record("get", self._full)
        eff = self._pt("s3.get")
        with open(filename, "wb") as f:   # as google-cloud-storage: the file is opened (truncated) first
            if self._full not in c.objects:
                raise self._nf()
            data = c.objects[self._full]
            cut = int(len(data) * 0.5) if eff is not None and eff["effect"] == "cloud_partial" else None
            off = 0
            while off < len(data):
                if cut is not None and off >= cut:
                    from google.api_core.exceptions import ServiceUnavailable
                    raise ServiceUnavailable("connection broken")
                f.write(data[off:off + c.part])
                f.flush()
                off += c.part
                simfs.point("s3.chunk", "/gs/chunk")

    def delete(self):
        self._pt("s3.del", True)
        cloud().objects.pop(self._full, None)
        cloud().record("del", self._full)

    def exists(self, **kw):
        self._pt("s3.head")
        return self._full in cloud().objects


class _GBucket:
    def __init__(self, name):
        self.name = name

    def blob(self, name, **kw):
        return _GBlob(self, name)

    def get_blob(self, name):
        b = _GBlob(self, name)
        return b if b.exists() else None

    def list_blobs(self, prefix="", **kw):
        simfs.point("s3.list", "/gs/%s/%s" % (self.name, prefix))
        return iter([_GBlob(self, k) for k in cloud().listing(self.name, prefix or "")])

    def copy_blob(self, blob, dest, new_name=None):
        c = cloud()
        if blob._full not in c.objects:
            raise blob._nf()
        b = _GBlob(dest, new_name or blob.name)
        b._pt("s3.put", True)
        c.objects[b._full] = c.objects[blob._full]
        c.record("put", b._full)
        return b


class GClient:
    def __init__(self, *a, **k):
        if core.SIM is None:
            raise HarnessError("gcs client outside a simulation")

    def bucket(self, name):
        return _GBucket(name)

    get_bucket = bucket

    def list_blobs(self, bucket, prefix="", **kw):
        name = bucket if isinstance(bucket, str) else bucket.name
        return _GBucket(name).list_blobs(prefix)


# ------------------------------------------------------------------------------------------------- HTTP
class Resp:
    def __init__(self, status, body):
        self.status_code = status
        self._body = body
        self.ok = status < 400
        self.text = body if isinstance(body, str) else json.dumps(body)
        self.content = self.text.encode()

    def json(self):
        return json.loads(self.text)

    def raise_for_status(self):
        if self.status_code >= 400:
            import requests
            raise requests.exceptions.HTTPError(str(self.status_code))


BLACK_HOLE = object()      # a handler's answer: none, ever


def _make_request(pool, conn, method, url, body=None, headers=None, retries=None, timeout=None, **kw):
    """In place of urllib3's exchange with a server; everything above it (retries, hooks, timeouts) is real."""
    import io
    import urllib3
    from urllib3.exceptions import NewConnectionError, ReadTimeoutError
    s = core.SIM
    h = getattr(s, "http", None) if s is not None and s.current() is not None else None
    if h is None:
        raise NewConnectionError(conn, "no network in the simulation")
    s.yield_point("http")
    full = f"{pool.scheme}://{pool.host}{':%d' % pool.port if pool.port else ''}{url}"
    raw = body.encode() if isinstance(body, str) else body
    try:
        js = json.loads(raw) if raw else None
    except ValueError:
        js = None
    limit = getattr(timeout, "read_timeout", None)
    t0 = s.now
    r = h(method, full, {"json": js, "data": raw, "headers": dict(headers or {}), "timeout": limit})
    took = float("inf") if r is BLACK_HOLE else s.now - t0
    if limit is not None and isinstance(limit, (int, float)) and took > limit:
        if r is BLACK_HOLE:
            s.sleep(limit)
        raise ReadTimeoutError(pool, url, f"Read timed out. (read timeout={limit})")
    if r is BLACK_HOLE:
        s.sleep(10 ** 7)
    return urllib3.HTTPResponse(body=io.BytesIO(r.content), headers={"Content-Type": "application/json"}, status=r.status_code,
                                preload_content=False, request_method=method, request_url=url, version=11, version_string="HTTP/1.1",
                                reason="")


def install():
    import boto3
    boto3.Session = SessionStub
    boto3.session.Session = SessionStub
    boto3.client = lambda service, **kw: SessionStub().client(service, **kw)
    import requests  # noqa: F401
    from urllib3.connectionpool import HTTPConnectionPool
    HTTPConnectionPool._make_request = _make_request
    try:
        from google.cloud import storage
        storage.Client = GClient
    except Exception:
        pass
