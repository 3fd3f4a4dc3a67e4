#!/usr/bin/env python3
"""Builds everything once, so that the checks' own builds are incremental."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import configs
import literals
import mixing
import platforms
import ub
from common import *

try:
    for crate in ["fx", "codec", "withs", "wrap"]:
        build(crate, "checked")
        build(crate, "release")
    for variant in VARIANTS:
        build("fx", "checked", variant)
    for binary, err in configs.make_all(configs.CONFIGS):
        if binary is None:
            print(err)
    ub.asan_build()
    ub.miris()
    literals.prepare()
    mixing.prepare()
    for name in ["i686", "s390x"]:
        try:
            platforms.make(name)
        except platforms.DoesNotBuild as e:
            print(e)
except CheckError as e:
    print(e)
    sys.exit(1)
