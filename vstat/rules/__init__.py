from . import base
from .base import PROPS


def load():
    import importlib
    import os
    import pkgutil
    for m in pkgutil.iter_modules([os.path.dirname(__file__)]):
        if m.name != "base":
            importlib.import_module(f"{__name__}.{m.name}")
