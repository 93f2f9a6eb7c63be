#!/usr/bin/env python3
"""Checks that the verifier builds from the committed files."""
import os, subprocess, sys
e = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off", GOSUMDB="off")
e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "")
e.setdefault("HOME", "/root")
sys.exit(subprocess.call(["go", "build", "-o", "/dev/null", "."], cwd="/verif/gowp", env=e))
