"""Langspecs the simulated servers offer.  Built from the repository's packaged
one (data, read at run time) by dropping and adding operations."""
import copy
import json
import os

_cache = {}


def base():
    if "base" not in _cache:
        repo = os.environ.get("VERIF_REPO", "/repo")
        with open(repo + "/tealish/langspec.json", "rb") as f:
            _cache["base"] = json.loads(f.read())
    return _cache["base"]


def get(name):
    """'old', 'new', 'master', 'v7' ... -> spec dict, None for an unknown name."""
    if name in _cache:
        return _cache[name]
    b = base()
    if name == "base":
        return b
    if name == "old":
        s = copy.deepcopy(b)
        drop = {"vrf_verify", "block", "box_create", "ed25519verify_bare"}
        s["Ops"] = [o for o in s["Ops"] if o["Name"] not in drop]
    elif name in ("new", "master"):
        s = copy.deepcopy(b)
        s["Ops"] = s["Ops"] + [{"Opcode": 240, "Name": "simop_" + name, "Args": "B", "Returns": "B", "Size": 1,
                                "Doc": "simulated", "Groups": ["Arithmetic"]}]
    elif name == "small":
        s = copy.deepcopy(b)
        for o in s["Ops"]:
            o.pop("Doc", None)
            o.pop("DocExtra", None)
    elif name == "accents":
        s = copy.deepcopy(b)
        for o in s["Ops"][::7]:
            o["Doc"] = "soci\u00e9t\u00e9 \u2264 2\u2076\u2074 \u4e2d\u6587 \u00c1"
    elif name.startswith("broken-"):        # one operation is damaged: broken-<operation>-<what>
        _, op, what = name.split("-")
        s = copy.deepcopy(b)
        for o in s["Ops"]:
            if o["Name"] == op:
                if what == "Size":
                    o.pop("Size", None)
                else:
                    o[what] = {"SizeText": "one", "Args": "?", "Returns": "?"}.get(what, 7)
                    if what == "SizeText":
                        o["Size"] = o.pop(what)
    else:
        return None
    _cache[name] = s
    return s


def text(name):
    """The langspec as a file; the one with accents as go-algorand would write it, in plain UTF-8."""
    return json.dumps(get(name), ensure_ascii=name != "accents")
