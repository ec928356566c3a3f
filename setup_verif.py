#!/usr/bin/env python3
"""Builds the framework: compiles java/Rationals.java and checks with TLC that
it agrees with the definitions in spec/Rationals.tla."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import core  # noqa: E402

core.ensure_build()
r = core.model_check('MC_Rationals.cfg')
print('arithmetic agrees with its specification on %d states' % r['distinct'])
