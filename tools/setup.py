#!/usr/bin/env python3
"""Builds the harnesses once so the checks find their objects in the cache (.build); they rebuild whatever has changed since."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import blob_checks  # noqa: E402
import codec_checks  # noqa: E402
import device_checks  # noqa: E402
import edge_checks  # noqa: E402
import file_checks  # noqa: E402
import image_checks  # noqa: E402
import math_checks  # noqa: E402
import object_checks  # noqa: E402
import pool_checks  # noqa: E402

image_checks.build_imgdrv()
image_checks.build_ocldrv()
pool_checks.build_pooldrv()
object_checks.build_objdrv()
object_checks.build_allocdrv()
object_checks.build_allocconc()
blob_checks.build_blobdrv()
edge_checks.build_edgedrv()
file_checks.build_filedrv()
math_checks.build_mathdrv()
codec_checks.build_codecdrv()
device_checks.build_devdrv()
