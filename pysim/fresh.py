"""A freshly started interpreter that restores a save."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c14
d = json.load(sys.stdin)
print(repr(c14.generation(d["sc"], d["text"], d["calls"], d["mode"])))
