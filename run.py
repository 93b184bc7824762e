"""Entry point of every check: python3 /verif/run.py C01 [--tier quick|thorough] [--replay FILE] [--only PART]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import boot      # noqa
boot.reexec()
from mc import report    # noqa

if __name__ == '__main__':
    code = report.main(sys.argv)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
