#!/usr/bin/python3
"""Prints the scenario counts of an evidence file."""
import json
import sys
d = json.load(open(f"/verif/evidence/{sys.argv[1]}.json"))


def walk(o):
    if isinstance(o, dict):
        if "executions" in o and "name" in o:
            print(f"{o['name']:28} exec {o['executions']:>9} trans {o.get('transitions')} states {o.get('states')} "
                  f"{'CAPPED' if o.get('capped') else ''}")
        for v in o.values():
            walk(v)
    elif isinstance(o, list):
        for v in o:
            walk(v)


walk(d)
