"""Short sequences of arbitrary elements, every loop followed exactly."""
import spec_val, build
from spec_val import *
class EngineClass(spec_val.EngineClass):
    small_loops = 48; small_width = 60000 if '-DDEEP' in build.CFLAGS else 5000
    def __init__(self, *a, **k):
        spec_val.EngineClass.__init__(self, *a, **k); self.max_insts = 400000000; self.max_paths = 200000
