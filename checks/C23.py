"""C23: storages in files."""
import dhtnode  # noqa: F401 (puts tools on the path)
import os
import shutil
import tempfile

import checklib
from checklib import *


def body(c):
    c.model_check("FileStoreMC.tla", "FileStoreMC.cfg", "FileStoreMC")
    if c.tier == "thorough":
        c.model_check("FileStoreMC.tla", "FileStoreMCB.cfg", "FileStoreMCB", timeout=3000)
    for b in range(c.pick(1, 10)):
        beh = c.generate("FileStoreGen.tla", "FileStoreGen.cfg", f"filestore{b}", c.pick(500, 1500), 30, seed_add=b)
        c.write("beh.ndjson", beh)
        scratch = tempfile.mkdtemp(prefix="filestore", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
        try:
            c.drive("filestore", [c.path("beh.ndjson"), c.path("traces.ndjson"), scratch])
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        c.validate("TraceFileStore.tla", "TraceFileStore.cfg", c.path("traces.ndjson"), f"filestore{b}")


checklib.main("C23", "model_checking", body)
