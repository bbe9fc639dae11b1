"""nothing to build: the checks read /repo's sources and run them in place; this only says whether the tools are there"""
import subprocess
import sys
import z3
print('z3', z3.get_version_string(), 'python', sys.version.split()[0])
subprocess.check_call(['/opt/venv/bin/python', '-c', 'import lxml, sciencebeam_trainer_grobid_tools'])
