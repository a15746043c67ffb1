class Job:
    """scenarios to run and to validate.  variants: driver builds whose traces are joined"""
    def __init__(self, scens, spec="TraceSim", aspects=(), variants=("dbg",), label=""):
        self.scens = scens; self.spec = spec; self.aspects = set(aspects); self.variants = variants; self.label = label or spec
