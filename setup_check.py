"""Setup: nothing to build; check that the tools the analyser needs are present."""
import subprocess
import sys

subprocess.run(["jython", "--version"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
sys.exit(0)
