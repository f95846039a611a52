#!/bin/bash
# builds the MIR driver, the extension module and warms the MIR target directory
cd /verif || exit 1
mkdir -p build/cache evidence
exec python3-vt setup.py
