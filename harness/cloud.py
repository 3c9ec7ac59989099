"""
Stand-ins for the services behind the cloud adapters: the clients of Google Cloud Storage and
of MinIO, over one set of objects in memory. They are put in the place of the client classes
which mabel's adapters import; the adapters themselves run unchanged.
"""
import hashlib
import io
import os
import time

import common  # noqa: F401


class Service:
    """(bucket, name) -> bytes; hooks see every attempt to store"""

    def __init__(self, blobs=None):
        self.objects = {}
        self.attempt = None  # called with (path, data, store) for every attempt
        self.lists = 0
        for path, data in (blobs or {}).items():
            self.objects[self.split(path)] = data

    @staticmethod
    def split(path):
        bucket, _, name = path.partition("/")
        return bucket, name

    def buckets(self):
        return {b for b, _ in self.objects} | {"bucket", "b", "b-2"}

    def put(self, bucket, name, data):
        data = bytes(data)

        def store():
            self.objects[(bucket, name)] = data

        if self.attempt:
            self.attempt(bucket + "/" + name, data, store)
        else:
            store()

    def names(self, bucket, prefix=None, delimiter=None):
        self.lists += 1
        prefix = prefix or ""
        got = []
        for b, n in sorted(self.objects):
            if b == bucket and n.startswith(prefix):
                if delimiter and delimiter in n[len(prefix):]:
                    n = prefix + n[len(prefix):].split(delimiter)[0] + delimiter
                    if n in got:
                        continue
                got.append(n)
        return got


SERVICE = Service()


# ------------------------------------------------------------------ Google Cloud Storage
class GBlob:
    def __init__(self, bucket, name):
        self.bucket = bucket
        self.name = name

    @property
    def _key(self):
        return (self.bucket.name, self.name)

    @property
    def size(self):
        return len(SERVICE.objects.get(self._key, b""))

    def upload_from_string(self, data, content_type="text/plain", **kw):
        if isinstance(data, str):
            data = data.encode("utf8")
        SERVICE.put(self.bucket.name, self.name, data)

    def upload_from_file(self, file_obj, rewind=False, size=None, **kw):
        if rewind:
            file_obj.seek(0)
        data = file_obj.read() if size is None else file_obj.read(size)
        SERVICE.put(self.bucket.name, self.name, data)

    def upload_from_filename(self, filename, **kw):
        with open(filename, "rb") as f:
            self.upload_from_file(f)

    def download_as_bytes(self, *a, start=None, end=None, **kw):
        if self._key not in SERVICE.objects:
            from google.api_core.exceptions import NotFound

            raise NotFound(self.name)
        data = SERVICE.objects[self._key]
        return data[start or 0:None if end is None else end + 1]

    download_as_string = download_as_bytes

    def download_as_text(self, *a, encoding="utf8", **kw):
        return self.download_as_bytes().decode(encoding or "utf8")

    def download_to_file(self, f, **kw):
        f.write(self.download_as_bytes())

    def open(self, mode="rb", **kw):
        if "r" in mode:
            data = self.download_as_bytes()
            return io.BytesIO(data) if "b" in mode else io.StringIO(data.decode("utf8"))
        blob = self

        class Up(io.BytesIO):
            def close(self):
                if not self.closed:
                    blob.upload_from_string(self.getvalue())
                super().close()

        return Up()

    def exists(self, *a, **kw):
        return self._key in SERVICE.objects

    def reload(self, *a, **kw):
        pass

    def delete(self, *a, **kw):
        SERVICE.objects.pop(self._key, None)


class GBucket:
    def __init__(self, name):
        self.name = name

    def blob(self, blob_name, *a, **kw):
        return GBlob(self, blob_name)

    def get_blob(self, blob_name, *a, **kw):
        return GBlob(self, blob_name) if (self.name, blob_name) in SERVICE.objects else None

    def list_blobs(self, max_results=None, page_token=None, prefix=None, delimiter=None, start_offset=None, end_offset=None, **kw):
        names = SERVICE.names(self.name, prefix, delimiter)
        if delimiter:  # what is deeper are "prefixes", not objects
            names = [n for n in names if (self.name, n) in SERVICE.objects]
        names = [n for n in names if (start_offset is None or n >= start_offset) and (end_offset is None or n < end_offset)]
        for n in names[:max_results]:
            yield GBlob(self, n)

    def exists(self, *a, **kw):
        return self.name in SERVICE.buckets()


class GClient:
    def __init__(self, *a, **kw):
        pass

    @classmethod
    def create_anonymous_client(cls):
        return cls()

    def bucket(self, name, *a, **kw):
        return GBucket(name)

    def get_bucket(self, name, *a, **kw):
        name = getattr(name, "name", name)
        if name not in SERVICE.buckets():
            from google.api_core.exceptions import NotFound

            raise NotFound(f"bucket {name!r}")
        return GBucket(name)

    def lookup_bucket(self, name, *a, **kw):
        return GBucket(name) if name in SERVICE.buckets() else None

    def list_blobs(self, bucket_or_name, *a, **kw):
        return GBucket(getattr(bucket_or_name, "name", bucket_or_name)).list_blobs(*a, **kw)


# ------------------------------------------------------------------ MinIO
class MObject:
    def __init__(self, bucket, name):
        self.bucket_name, self.object_name = bucket, name
        self.is_dir = name.endswith("/")
        self.size = len(SERVICE.objects.get((bucket, name), b""))


class MResponse(io.BytesIO):
    def stream(self, amt=32768, **kw):
        while True:
            x = self.read(amt)
            if not x:
                return
            yield x

    @property
    def data(self):
        return self.getvalue()

    def read(self, amt=None, **kw):
        return super().read(-1 if amt is None else amt)

    def release_conn(self):
        pass


class MMissing(Exception):
    pass


class MClient:
    def __init__(self, endpoint, access_key=None, secret_key=None, session_token=None, secure=True, **kw):
        if not isinstance(endpoint, str) or "/" in endpoint:
            raise ValueError("invalid end point")

    def put_object(self, bucket_name, object_name, data, length, *a, **kw):
        if bucket_name not in SERVICE.buckets():
            raise MMissing(bucket_name)
        got = data.read() if length == -1 else data.read(length)
        if length != -1 and len(got) != length:
            raise OSError("stream having not enough data")
        SERVICE.put(bucket_name, object_name, got)

    def list_objects(self, bucket_name, prefix=None, recursive=False, start_after=None, **kw):
        if bucket_name not in SERVICE.buckets():
            raise MMissing(bucket_name)
        for n in SERVICE.names(bucket_name, prefix, None if recursive else "/"):
            if start_after is None or n > start_after:
                yield MObject(bucket_name, n)

    def get_object(self, bucket_name, object_name, offset=0, length=0, **kw):
        if (bucket_name, object_name) not in SERVICE.objects:
            raise MMissing(object_name)
        data = SERVICE.objects[(bucket_name, object_name)][offset:]
        return MResponse(data[:length] if length else data)

    def stat_object(self, bucket_name, object_name, **kw):
        if (bucket_name, object_name) not in SERVICE.objects:
            raise MMissing(object_name)
        return MObject(bucket_name, object_name)

    def bucket_exists(self, bucket_name, **kw):
        return bucket_name in SERVICE.buckets()

    def remove_object(self, bucket_name, object_name, **kw):
        SERVICE.objects.pop((bucket_name, object_name), None)


# ------------------------------------------------------------------ putting them in place
def install():
    import importlib

    import google.cloud.storage as gcs
    import minio

    gcs.Client = GClient
    minio.Minio = MClient
    for m in ("google.google_cloud_storage_writer", "google.google_cloud_storage_reader", "minio.minio_writer", "minio.minio_reader"):
        mod = importlib.import_module("mabel.adapters." + m)
        if hasattr(mod, "Minio"):
            mod.Minio = MClient
        if hasattr(mod, "storage") and getattr(mod.storage, "Client", None) is not GClient:
            mod.storage.Client = GClient
    os.environ.pop("STORAGE_EMULATOR_HOST", None)
    time.sleep = lambda s: None  # between the attempts


def writer_class(backend):
    install()
    if backend == "gcs":
        from mabel.adapters.google.google_cloud_storage_writer import GoogleCloudStorageWriter

        return GoogleCloudStorageWriter, {}
    from mabel.adapters.minio import MinIoWriter

    return MinIoWriter, dict(end_point="localhost:9000", access_key="a", secret_key="s", secure=False)


def reader_class(backend):
    install()
    if backend == "gcs":
        from mabel.adapters.google.google_cloud_storage_reader import GoogleCloudStorageReader

        return GoogleCloudStorageReader, {}
    from mabel.adapters.minio import MinIoReader

    return MinIoReader, dict(end_point="localhost:9000", access_key="a", secret_key="s", secure=False)


def begin(blobs=None):
    """a service with these objects"""
    global SERVICE
    SERVICE = Service(blobs)
    return SERVICE


# ------------------------------------------------------------------ errors
def error(kind):
    from google.api_core import exceptions as x
    from urllib3.exceptions import ProtocolError

    return {
        "reset": ConnectionResetError("reset"),
        "protocol": ProtocolError("Connection broken"),
        "internal": x.InternalServerError("oops"),
        "toomany": x.TooManyRequests("slow down"),
        "forbidden": x.Forbidden("no"),
        "notfound": x.NotFound("no"),
        "value": ValueError("no"),
        "auth": x.Unauthorized("no"),
        "broken": RuntimeError("no"),
    }[kind]


TRANSIENT = ("reset", "protocol", "internal", "toomany")


def digest(data):
    return hashlib.sha1(data).hexdigest()[:12]
