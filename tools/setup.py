#!/usr/bin/env python3
"""Nothing to compile: check that what the monitors need is there."""
import os, subprocess, sys
py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
sys.exit(subprocess.call([py, "-B", "-c", "import json, socket, threading, ssl; print('ready')"]))
