"""known findings: /verif/known_findings.json"""
import json
import os

from . import env


def load():
    p = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def known_for(prop, contract, values, result):
    for k in load():
        if k.get("status") == "known" and k["property"] == prop and k.get("contract") == contract:
            if all(values.get(a) == b for a, b in k.get("values", {}).items()):
                return k["what"]
    return None


def known_values(contract):
    return [k.get("values", {}) for k in load() if k.get("status") == "known" and k.get("contract") == contract]
