"""Build the harness once, so that a missing tool shows up here."""
import subprocess, sys
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent))
import search
subprocess.run(["verus", "--version"], check=True, stdout=subprocess.DEVNULL)
print(search.build())
