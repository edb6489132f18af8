#!/usr/bin/env python3
"""Builds the extractor and generates the protobuf headers the checks parse against."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ygv import build
build.ensure_tool()
build.ensure_pb()
print("ready")
