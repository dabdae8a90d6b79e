#!/usr/bin/env python3
"""Prints the overlay that adds the harness's access files to packages of /repo."""
import json, os
base = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'overlay')
base = os.path.normpath(base)
print(json.dumps({"Replace": {
    "/repo/bulletproofs/verif_access.go": base + "/bulletproofs.go.txt",
    "/repo/ccs08/verif_access.go": base + "/ccs08.go.txt",
    "/repo/crypto/bn256/verif_access.go": base + "/bn256.go.txt",
    "/repo/crypto/bbsignatures/verif_access.go": base + "/bbsignatures.go.txt",
}}))
