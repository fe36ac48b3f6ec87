"""property -> (module, level, technique, assumptions, explanation)"""
from props import PROPS
REG = {p["id"]: (p["module"], "other", p["technique"], p["assume"], p["how"]) for p in PROPS}
