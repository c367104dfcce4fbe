"""Canonical form of results, and the worker process of S07.

worker: python -m lib.purity <dir> <order seed>   -> JSON {file name: digest or error}
"""
from __future__ import annotations

import errno
import hashlib
import io
import json
import logging
import os
import random
import sys
from pathlib import Path


def canon(x, depth=0):
    """Text that spells out types, order and contents of a result."""
    if depth > 60:
        raise RecursionError("result nested beyond 60 levels")
    if isinstance(x, dict):
        return type(x).__name__ + "{" + ",".join(canon(k, depth + 1) + ":" + canon(v, depth + 1) for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + "(" + ",".join(canon(v, depth + 1) for v in x) + ")"
    if isinstance(x, (set, frozenset)):
        return type(x).__name__ + "<" + ",".join(sorted(canon(v, depth + 1) for v in x)) + ">"
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes)):
        return type(x).__name__ + repr(x)
    if hasattr(x, "tolist"):
        return type(x).__name__ + canon(x.tolist(), depth + 1)
    if hasattr(x, "__next__"):
        return "iter" + canon(list(x), depth + 1)
    return type(x).__name__ + "?" + (canon(vars(x), depth + 1) if hasattr(x, "__dict__") else str(type(x)))


def digest(x):
    return hashlib.sha256(canon(x).encode("utf-8", "surrogatepass")).hexdigest()[:24]


def parser_of(ext):
    from castep_outputs.bin_parsers import PARSERS as BIN
    from castep_outputs.parsers import PARSERS
    return {**PARSERS, **BIN}[ext]


def how_much(name):
    """Single sections and embedded files are parsed with every section asked for."""
    if not name.startswith(("g-", "e-")) or not name.endswith(".castep"):
        return {}
    from castep_outputs.parsers.castep_file_parser import Filters
    return {"filters": Filters.FULL | Filters.TEST_EXTRA_DATA}


def outcome(func, arg, **kw):
    """(digest, result) or (error text, None)."""
    try:
        res = func(arg, **kw)
    except Exception as err:  # noqa: BLE001
        if isinstance(err, OSError) and err.errno == errno.EINVAL:
            # a damaged binary file, rewound past its start: a file refuses that seek, a buffer in memory clamps
            # it and the reader then reports the record it did not expect
            return "raised ValueError", None
        return f"raised {type(err).__name__}", None
    return digest(res), res


def main(folder, order):
    from lib import vf
    vf.import_repo()
    level = os.environ.get("VERIF_LOGLEVEL")
    if level:
        logging.basicConfig(level=getattr(logging, level), stream=io.StringIO())
    names = sorted(p.name for p in Path(folder).iterdir())
    random.Random(order).shuffle(names)
    out = {}
    for n in names:
        path = os.path.relpath(Path(folder) / n) if os.environ.get("VERIF_RELATIVE") else str(Path(folder) / n)
        out[n] = outcome(parser_of(n.rsplit(".", 1)[1]), path, **how_much(n))[0]
    json.dump(out, sys.stdout)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
