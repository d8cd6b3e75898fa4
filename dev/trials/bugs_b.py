"""the planted bugs of dev/bugs2.py as trials"""
import importlib.util, os
_s = importlib.util.spec_from_file_location('bugs2', os.path.join(os.path.dirname(__file__), '..', 'bugs2.py'))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
TRIALS = [dict(id=b['id'], edits=b['edits'], expect={b['property']}) for b in _m.BUGS]
