#!/usr/bin/env python3
"""Builds the extractor and the replay crate, offline, from the committed files."""
import check
check.build("vx")
check.build("replay")
print("setup done")
