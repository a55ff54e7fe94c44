"""An object store with the S3 interface on the loopback network, kept in memory, with injected faults."""
from __future__ import annotations

import contextlib
import email.utils
import hashlib
import http.server
import os
import re
import socket
import tempfile
import threading
import urllib.parse
from pathlib import Path
from typing import Dict, List, Optional
from xml.etree import ElementTree
from xml.sax.saxutils import escape

RESET, CUT, BUSY, OK = "reset", "cut", "busy", "ok"


class Store:
    def __init__(self) -> None:
        self.lock = threading.RLock()
        self.clear()

    def clear(self) -> None:
        with self.lock:
            self.buckets: Dict[str, Dict[str, bytes]] = {}
            #: fate of the next requests for content, then all succeed
            self.plan: List = []
            self.page = 1000
            self.log: List = []
            self.keys = set()
            self.faults = 0

    def load(self, bucket: str, root: Path) -> None:
        """Puts all files below root into a bucket."""
        files = {str(p.relative_to(root)): p.read_bytes() for p in sorted(root.rglob("*")) if p.is_file()}
        with self.lock:
            self.buckets[bucket] = files

    def next(self):
        with self.lock:
            f = self.plan.pop(0) if self.plan else [OK, 0]
            if f[0] != OK:
                self.faults += 1
            return f


def _unchunk(data: bytes) -> bytes:
    res = b""
    while data:
        head, _, data = data.partition(b"\r\n")
        n = int(head.split(b";")[0], 16)
        if n == 0:
            return res
        res += data[:n]
        data = data[n + 2:]
    return res


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    store: Store

    def log_message(self, *a) -> None:
        pass

    def setup(self) -> None:
        super().setup()
        self.connection.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)

    def _body(self) -> bytes:
        if "chunked" in self.headers.get("Transfer-Encoding", ""):
            res = b""
            while True:
                n = int(self.rfile.readline().split(b";")[0], 16)
                res += self.rfile.read(n)
                self.rfile.readline()
                if n == 0:
                    break
        else:
            res = self.rfile.read(int(self.headers.get("Content-Length") or 0))
        if "aws-chunked" in self.headers.get("Content-Encoding", ""):
            res = _unchunk(res)
        return res

    def _send(self, code: int, data: bytes = b"", headers=(), cut: Optional[int] = None) -> None:
        self.send_response(code)
        for k, v in dict(headers).items():
            self.send_header(k, v)
        if "Content-Length" not in dict(headers) and code != 204:
            self.send_header("Content-Length", str(len(data)))
        self.end_headers()
        if self.command != "HEAD":
            self.wfile.write(data if cut is None else data[:cut])
        self.wfile.flush()
        if cut is not None:
            self._reset()

    def _reset(self) -> None:
        self.close_connection = True
        with contextlib.suppress(OSError):
            self.connection.shutdown(socket.SHUT_RDWR)

    def _error(self, code: int, name: str) -> None:
        self._send(code, f"<?xml version='1.0'?><Error><Code>{name}</Code><Message>{name}</Message></Error>".encode(),
                   {"Content-Type": "application/xml"})

    def _xml(self, root: str, body: str) -> None:
        self._send(200, f"<?xml version='1.0' encoding='UTF-8'?><{root}>{body}</{root}>".encode(),
                   {"Content-Type": "application/xml"})

    def _meta(self, data: bytes):
        return {"ETag": '"' + hashlib.md5(data).hexdigest() + '"', "Last-Modified": email.utils.formatdate(0, usegmt=True),
                "Content-Type": "binary/octet-stream", "Accept-Ranges": "bytes"}

    def _serve(self) -> None:
        url = urllib.parse.urlsplit(self.path)
        q = dict(urllib.parse.parse_qsl(url.query, keep_blank_values=True))
        bucket, _, key = urllib.parse.unquote(url.path).lstrip("/").partition("/")
        body = self._body()
        st, m = self.store, self.command
        a = re.search(r"Credential=([^/]*)/[^/]*/([^/]*)/", self.headers.get("Authorization", ""))
        with st.lock:
            st.keys.add(a.groups() if a else None)
            st.log.append((m, bucket, key, self.headers.get("Range"), sorted(q)))
            if not bucket:
                return self._xml("ListAllMyBucketsResult", "<Buckets>" + "".join(
                    f"<Bucket><Name>{escape(b)}</Name><CreationDate>2020-01-01T00:00:00.000Z</CreationDate></Bucket>"
                    for b in sorted(st.buckets)) + "</Buckets>")
            if m == "PUT" and not key:
                st.buckets.setdefault(bucket, {})
                return self._send(200)
            if bucket not in st.buckets:
                return self._error(404, "NoSuchBucket")
            objs = st.buckets[bucket]
            if not key:
                if m == "HEAD":
                    return self._send(200)
                if m == "POST" and "delete" in q:
                    names = [e.text for e in ElementTree.fromstring(body).iter() if e.tag.endswith("Key")]
                    for n in names:
                        objs.pop(n, None)
                    return self._xml("DeleteResult", "".join(f"<Deleted><Key>{escape(n)}</Key></Deleted>" for n in names))
                if m == "GET" and "location" in q:
                    return self._xml("LocationConstraint", "")
                if m == "GET":
                    return self._list(objs, bucket, q)
                return self._error(501, "NotImplemented")
            if m == "PUT":
                src = self.headers.get("x-amz-copy-source")
                if src:
                    b, _, k = urllib.parse.unquote(src).lstrip("/").partition("/")
                    if k not in st.buckets.get(b, {}):
                        return self._error(404, "NoSuchKey")
                    objs[key] = st.buckets[b][k]
                    return self._xml("CopyObjectResult", f"<ETag>{self._meta(objs[key])['ETag']}</ETag>"
                                     "<LastModified>2020-01-01T00:00:00.000Z</LastModified>")
                objs[key] = body
                return self._send(200, b"", {"ETag": self._meta(body)["ETag"]})
            if m == "DELETE":
                objs.pop(key, None)
                return self._send(204)
            if m not in ("GET", "HEAD"):
                return self._error(501, "NotImplemented")
            if key not in objs:
                return self._error(404, "NoSuchKey")
            data = objs[key]
            if m == "HEAD":
                return self._send(200, b"", {**self._meta(data), "Content-Length": str(len(data))})
            kind, k = st.next()
        if kind == RESET:
            return self._reset()
        if kind == BUSY:
            return self._error(503, "SlowDown")
        head = self._meta(data)
        r = re.match(r"bytes=(\d*)-(\d*)$", self.headers.get("Range") or "")
        code, part = 200, data
        if r:
            lo, hi = r.groups()
            if not lo:
                lo, hi = max(0, len(data) - int(hi)), len(data) - 1
            lo, hi = int(lo), min(int(hi) if hi != "" else len(data) - 1, len(data) - 1)
            if lo >= len(data):
                return self._error(416, "InvalidRange")
            code, part = 206, data[lo:hi + 1]
            head["Content-Range"] = f"bytes {lo}-{hi}/{len(data)}"
        self._send(code, part, head, cut=k % len(part) if kind == CUT and part else None)

    def _list(self, objs, bucket, q) -> None:
        prefix, delim = q.get("prefix", ""), q.get("delimiter", "")
        after = q.get("continuation-token", q.get("start-after", ""))
        limit = min(int(q.get("max-keys", 1000)), self.store.page)
        entries = []
        for k in sorted(objs):
            if k.startswith(prefix):
                rest = k[len(prefix):]
                e = (prefix + rest.split(delim)[0] + delim, None) if delim and delim in rest else (k, objs[k])
                if e not in entries[-1:]:
                    entries.append(e)
        entries = [e for e in entries if e[0] > after]
        page, more = entries[:limit], len(entries) > limit
        enc = urllib.parse.quote if q.get("encoding-type") == "url" else escape
        out = f"<Name>{bucket}</Name><Prefix>{enc(prefix)}</Prefix><KeyCount>{len(page)}</KeyCount><MaxKeys>{limit}</MaxKeys>"
        if "encoding-type" in q:
            out += "<EncodingType>url</EncodingType>"
        out += f"<IsTruncated>{str(more).lower()}</IsTruncated>"
        if more:
            out += f"<NextContinuationToken>{escape(page[-1][0])}</NextContinuationToken>"
        for k, d in page:
            if d is None:
                out += f"<CommonPrefixes><Prefix>{enc(k)}</Prefix></CommonPrefixes>"
            else:
                out += (f"<Contents><Key>{enc(k)}</Key><LastModified>2020-01-01T00:00:00.000Z</LastModified>"
                        f"<ETag>{self._meta(d)['ETag']}</ETag><Size>{len(d)}</Size><StorageClass>STANDARD</StorageClass></Contents>")
        self._xml("ListBucketResult", out)

    do_GET = do_PUT = do_HEAD = do_POST = do_DELETE = _serve


class Server(http.server.ThreadingHTTPServer):
    daemon_threads = True
    request_queue_size = 64

    def handle_error(self, request, client_address) -> None:
        pass  # the client went away


_running: list = []


def server():
    """(store, port) of the server of this process."""
    if not _running or _running[0][0] != os.getpid():
        os.environ["AWS_MAX_ATTEMPTS"] = "1"  # only the retries of the file system
        os.environ["AWS_EC2_METADATA_DISABLED"] = "true"
        store = Store()
        srv = Server(("127.0.0.1", 0), type("H", (Handler,), {"store": store}))
        threading.Thread(target=srv.serve_forever, kwargs={"poll_interval": 0.05}, daemon=True).start()
        _running[:] = [(os.getpid(), store, srv.server_address[1])]
    return _running[0][1:]


@contextlib.contextmanager
def remote(names=("store",)):
    """A fresh object store, reachable as rclone://<name>/<bucket>/... for each of the names."""
    import s3fs

    store, port = server()
    store.clear()
    d = tempfile.mkdtemp(prefix="rclone-")
    (Path(d) / "rclone").mkdir()
    conf = Path(d) / "rclone" / "rclone.conf"
    conf.write_text("".join(
        f"[{n}]\ntype = s3\nprovider = Other\naccess_key_id = key-{n}\nsecret_access_key = secret-{n}\n"
        f"region = region-{n}\nendpoint = http://127.0.0.1:{port}\n\n" for n in names))
    old = os.environ.get("XDG_CONFIG_HOME")
    os.environ["XDG_CONFIG_HOME"] = d
    s3fs.S3FileSystem.clear_instance_cache()
    try:
        yield store
    finally:
        s3fs.S3FileSystem.clear_instance_cache()
        if old is None:
            os.environ.pop("XDG_CONFIG_HOME", None)
        else:
            os.environ["XDG_CONFIG_HOME"] = old
        conf.unlink()
        (Path(d) / "rclone").rmdir()
        Path(d).rmdir()
