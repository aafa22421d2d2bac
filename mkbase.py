"""Freeze the inventory of functions in the inventoried tree (run once by hand)."""
import json, sys
sys.path.insert(0, '/verif')
from sa.model import Model
json.dump(sorted({f.ref for f in Model().all_funcs(nested=False)}), open('/verif/sa/base_names.json', 'w'), indent=0)
