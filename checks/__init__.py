"""Registry of the checks: every module of this package defines CHECKS = {property id: function(Check)}."""
import importlib
import pkgutil

REGISTRY = {}
for _m in sorted(x.name for x in pkgutil.iter_modules(__path__)):
    REGISTRY.update(importlib.import_module(f"{__name__}.{_m}").CHECKS)
