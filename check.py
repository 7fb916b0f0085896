#!/usr/bin/env python3
"""python3 /verif/check.py <property id> [--tier quick|thorough]"""
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.dont_write_bytecode = True
from kpstatic.report import main  # noqa: E402

sys.exit(main())
