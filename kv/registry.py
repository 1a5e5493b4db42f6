"""All properties with a check."""
from . import p_linear, p_extended, p_history, p_misc, p_version, p_equiv

PROPS = {}
for mod in (p_linear, p_extended, p_history, p_misc, p_version, p_equiv):
    for name in dir(mod):
        v = getattr(mod, name)
        if type(v).__name__ == "Prop":
            PROPS[v.pid] = v
PROPS = dict(sorted(PROPS.items()))
