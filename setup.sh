#!/bin/bash
# Builds the harness once; every check also builds what is missing or out of date.
cd "$(dirname "$0")" && exec python3 -c "
import importlib.machinery as m
c = m.SourceFileLoader('check', './check').load_module()
c.build()
print('built')"
