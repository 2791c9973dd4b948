"""Import the code under test from /repo's current working tree.

VERIF_REPO can point at another tree (used only while developing)."""
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
# No stale byte code: an unused prefix makes Python ignore __pycache__ folders.
sys.pycache_prefix = '/nonexistent-pycache-prefix'
sys.path.insert(0, REPO)

import structured as L                                      # noqa: E402
from structured.serializers import (                        # noqa: E402
    ArraySerializer, CompoundSerializer, NullSerializer, Serializer,
    StructActionSerializer, StructSerializer, TupleSerializer,
)
import typing                                               # noqa: E402

Structured = L.Structured
ByteOrder = L.ByteOrder
ByteOrderMode = L.ByteOrderMode
BO = {'': ByteOrder.DEFAULT, '<': ByteOrder.LE, '>': ByteOrder.BE,
      '=': ByteOrder.NATIVE_STANDARD, '@': ByteOrder.NATIVE_NATIVE,
      '!': ByteOrder.NETWORK}
