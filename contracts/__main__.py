import sys
sys.dont_write_bytecode = True
import os
sys.path.insert(0, os.path.join(os.environ.get("FCSQL_REPO", "/repo"), "src"))
sys.path.append("/opt/venv/lib/python3.12/site-packages")
from contracts import run
run.main(sys.argv[1:])
