#!/bin/bash
# Nothing to build: the checks import nxt from the working tree at run time.
/opt/venv/bin/python -c 'import sys; print(sys.version)'
