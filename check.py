#!/usr/bin/env python3-vt
"""check.py <ID> [--tier quick|thorough] [--replay FILE]"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import driver
if __name__ == '__main__':
    sys.exit(driver.main())
