import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vt"))
from vt import Job
SPECS = {}
NOALLOC = ["source/extension/sbc_blockalloc.c"]
FLOW_SCALE = {"VALUE_STACK_SIZE": 8, "CALL_STACK_SIZE": 8, "MAX_SPRITES": 2, "INKEY_BUF_SIZE": 4, "PANEL_KEYS": 4, "CONSOLE_WIDTH": 2, "CONSOLE_HEIGHT": 2,
              "BG_LAYERS": 1}

def J(name, file, entry, **kw):
    kw.setdefault("exclude", NOALLOC)
    kw.setdefault("scale", {"VALUE_STACK_SIZE": 8})
    kw.setdefault("fs", 16)
    return Job(name, file, entry, **kw)

def prop(pid, jobs, assumptions=()):
    SPECS[pid] = {"jobs": jobs, "assumptions": list(assumptions)}

from numbers_ import *
from strings_ import *
from numtext_ import *
from slots_ import *
from vars_ import *
from flow_ import *
from expr_ import *
from console_ import *
from graphics_ import *
