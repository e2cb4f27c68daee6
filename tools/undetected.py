#!/usr/bin/env python3
"""names of planted bugs without a result in tools/detection.json, or missed"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(V + "/tools/detection.json"))
print(" ".join(sorted(x for x in os.listdir(V + "/seeded") if x not in d or not d[x]["caught"])))
