from __future__ import annotations
import string
from abc import abstractmethod
from collections.abc import Sequence, Mapping, MutableMapping
from typing import Any, Union

SAFE = set(string.ascii_letters + string.digits + "()_-~.=")

def get_safe_chars():
    return set(SAFE)

def replace_unsafe_chars(a_str, replace_with):
    return "".join(c if c in SAFE else replace_with for c in a_str)


class SafeStrTuple(Sequence):
    def __init__(self, *args, **kwargs):
        assert len(kwargs) == 0 and len(args) > 0
        out = []
        for a in args:
            if isinstance(a, SafeStrTuple):
                out.extend(a.str_chain)
            elif isinstance(a, str):
                assert len(a) > 0 and all(c in SAFE for c in a), a
                out.append(str(a))
            elif isinstance(a, Sequence) and not isinstance(a, Mapping):
                out.extend(SafeStrTuple(*a).str_chain)
            else:
                raise TypeError(type(a))
        self.str_chain = tuple(out)

    def __getitem__(self, key):
        return self.str_chain[key]

    def __len__(self):
        return len(self.str_chain)

    def __hash__(self):
        return hash(self.str_chain)

    def __repr__(self):
        return f"{type(self).__name__}({self.str_chain})"

    def __eq__(self, other):
        return type(self) == type(other) and self.str_chain == other.str_chain

    def __add__(self, other):
        return SafeStrTuple(*(self.str_chain + SafeStrTuple(other).str_chain))

    def __radd__(self, other):
        return SafeStrTuple(other) + self


PersiDictKey = Union[SafeStrTuple, Sequence, str]


class PersiDict(MutableMapping):
    def __init__(self, immutable_items=False, digest_len=8
                 , base_class_for_values=None, *a, **k):
        assert not a and not k
        self.immutable_items = bool(immutable_items)
        self.digest_len = int(digest_len)
        self.base_class_for_values = base_class_for_values

    def get_params(self):
        return dict(immutable_items=self.immutable_items
            , digest_len=self.digest_len
            , base_class_for_values=self.base_class_for_values)

    @abstractmethod
    def __contains__(self, key): ...
    @abstractmethod
    def __getitem__(self, key): ...

    def __setitem__(self, key, value):
        if self.immutable_items and key in self:
            raise KeyError("Can't modify an immutable item")
        raise NotImplementedError

    def __delitem__(self, key):
        if self.immutable_items:
            raise KeyError("Can't delete an immutable key-value pair")
        raise NotImplementedError

    @abstractmethod
    def __len__(self): ...

    @abstractmethod
    def _generic_iter(self, iter_type: str): ...

    def __iter__(self):
        return self._generic_iter("keys")
    def keys(self):
        return self._generic_iter("keys")
    def values(self):
        return self._generic_iter("values")
    def items(self):
        return self._generic_iter("items")

    def delete_if_exists(self, key):
        if self.immutable_items:
            raise KeyError("Can't delete an immutable key-value pair")
        if key in self:
            try:
                self.__delitem__(key)
                return True
            except Exception:
                return False
        return False

    def get_subdict(self, prefix_key):
        raise NotImplementedError

    @abstractmethod
    def timestamp(self, key) -> float: ...

    def newest_keys(self, max_n=None):
        ks = sorted(self.keys(), key=self.timestamp, reverse=True)
        return ks if max_n is None else ks[:max_n]

    def newest_values(self, max_n=None):
        return [self[k] for k in self.newest_keys(max_n)]

    def __eq__(self, other):
        if isinstance(other, PersiDict):
            return type(self) == type(other) and self.get_params() == other.get_params()
        return NotImplemented
    __hash__ = None

    def __getstate__(self):
        raise TypeError("PersiDict is an abstract class and cannot be pickled")
