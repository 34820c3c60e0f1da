"""Stand-in for the 2024 persidict API that pythagoras 0.17 was written for.

Only used by demonstrations (never by a check): the release installed here has
a different API, so portals cannot be constructed with it.
"""
from .persi_dict import (PersiDict, PersiDictKey, SafeStrTuple
    , replace_unsafe_chars, get_safe_chars)
from .file_dir_dict import FileDirDict
