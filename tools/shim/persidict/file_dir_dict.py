from __future__ import annotations
import os, pathlib, uuid, hashlib, joblib, jsonpickle
import jsonpickle.ext.numpy as jn
import jsonpickle.ext.pandas as jp
from .persi_dict import PersiDict, SafeStrTuple
jn.register_handlers(); jp.register_handlers()


class FileDirDict(PersiDict):
    def __init__(self, base_dir="FileDirDict", file_type="pkl"
                 , immutable_items=False, digest_len=8
                 , base_class_for_values=None):
        super().__init__(immutable_items=immutable_items
            , digest_len=digest_len
            , base_class_for_values=base_class_for_values)
        self.file_type = file_type
        if base_class_for_values is None or not issubclass(base_class_for_values, str):
            assert file_type in ("pkl", "json"), file_type
        self._base_dir = os.path.abspath(str(base_dir))
        os.makedirs(self._base_dir, exist_ok=True)

    @property
    def base_dir(self):
        return self._base_dir

    def get_params(self):
        p = PersiDict.get_params(self)
        p.update(base_dir=self._base_dir, file_type=self.file_type)
        return p

    def __get_portable_params__(self):
        p = self.get_params()
        b = p.pop("base_class_for_values")
        p["base_class_for_values"] = None if b is None else b.__name__
        p["__class__"] = "FileDirDict"
        return p

    def _sign(self, s):
        if not self.digest_len:
            return s
        return s + "_" + hashlib.md5(s.encode()).hexdigest()[:self.digest_len]

    def _unsign(self, s):
        return s[:-self.digest_len - 1] if self.digest_len else s

    def _path(self, key, create=False):
        key = SafeStrTuple(key).str_chain
        parts = [self._sign(k) for k in key]
        d = os.path.join(self._base_dir, *parts[:-1])
        if create:
            os.makedirs(d, exist_ok=True)
        return os.path.join(d, parts[-1] + "." + self.file_type)

    def get_subdict(self, key):
        key = SafeStrTuple(key) if len(key) else ()
        parts = [self._sign(k) for k in key]
        p = self.get_params()
        p["base_dir"] = os.path.join(self._base_dir, *parts)
        return FileDirDict(**p)

    def __contains__(self, key):
        return os.path.isfile(self._path(key))

    def __getitem__(self, key):
        path = self._path(key)
        if not os.path.isfile(path):
            raise KeyError(key)
        if self.file_type == "pkl":
            result = joblib.load(path)
        elif self.file_type == "json":
            result = jsonpickle.loads(pathlib.Path(path).read_text())
        else:
            result = pathlib.Path(path).read_text()
        if self.base_class_for_values is not None and not isinstance(
                result, self.base_class_for_values):
            raise TypeError
        return result

    def __setitem__(self, key, value):
        if isinstance(value, PersiDict):
            raise TypeError("Cannot store a PersiDict instance in a PersiDict")
        if self.base_class_for_values is not None and not isinstance(
                value, self.base_class_for_values):
            raise TypeError
        path = self._path(key, create=True)
        if self.immutable_items and os.path.exists(path):
            raise KeyError("Can't modify an immutable item")
        tmp = path + "." + uuid.uuid4().hex + ".__tmp__"
        if self.file_type == "pkl":
            joblib.dump(value, tmp, compress="lz4")
        elif self.file_type == "json":
            pathlib.Path(tmp).write_text(jsonpickle.dumps(value, indent=4))
        else:
            pathlib.Path(tmp).write_text(value)
        os.replace(tmp, path)

    def __delitem__(self, key):
        if self.immutable_items:
            raise KeyError("Can't delete an immutable item")
        path = self._path(key)
        if not os.path.isfile(path):
            raise KeyError(key)
        os.remove(path)

    def __len__(self):
        return sum(1 for _ in self._keys())

    def _keys(self):
        suffix = "." + self.file_type
        for root, dirs, files in os.walk(self._base_dir):
            rel = os.path.relpath(root, self._base_dir)
            parts = [] if rel == "." else rel.split(os.sep)
            for f in files:
                if f.endswith(suffix):
                    yield SafeStrTuple(*[self._unsign(x) for x in parts]
                        , self._unsign(f[:-len(suffix)]))

    def _generic_iter(self, iter_type):
        for k in self._keys():
            if iter_type == "keys":
                yield k
            elif iter_type == "values":
                yield self[k]
            else:
                yield k, self[k]

    def timestamp(self, key):
        return os.path.getmtime(self._path(key))
