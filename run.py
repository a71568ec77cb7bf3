#!/opt/venv/bin/python
"""Entry point of every check:  /opt/venv/bin/python run.py C01 [--tier quick|thorough] [--replay FILE]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from mc.explore import main  # noqa: E402


def registry(prop):
    import importlib
    m = importlib.import_module('mc.props.' + prop.lower())
    return m.families(), m.LEVEL


if __name__ == '__main__':
    sys.exit(main(registry))
