"""Stand-in for the 2024 parameterizable API (demonstrations only)."""
_known = {}

class ParameterizableClass:
    def __init__(self):
        pass
    def get_params(self):
        raise NotImplementedError
    def __get_portable_params__(self):
        out = {}
        for k, v in self.get_params().items():
            if hasattr(v, "__get_portable_params__"):
                v = v.__get_portable_params__()
            out[k] = v
        out["__class__"] = type(self).__name__
        _known[type(self).__name__] = type(self)
        return out

def register_parameterizable_class(cls):
    _known[cls.__name__] = cls

def get_object_from_portable_params(params):
    from persidict import FileDirDict
    params = dict(params)
    name = params.pop("__class__")
    if name == "FileDirDict":
        b = params.get("base_class_for_values")
        params["base_class_for_values"] = str if b == "str" else None
        return FileDirDict(**params)
    for k, v in list(params.items()):
        if isinstance(v, dict) and "__class__" in v:
            params[k] = get_object_from_portable_params(v)
    return _known[name](**params)
