import glob
import importlib
import os
import sys

sys.dont_write_bytecode = True

from . import core

sys.path.insert(0, core.REPO)


def load(pid):
    here = os.path.dirname(os.path.abspath(__file__))
    names = glob.glob(os.path.join(here, pid.lower() + '_*.py'))
    if len(names) != 1:
        raise SystemExit('no check module for {}'.format(pid))
    return importlib.import_module('mc.' + os.path.basename(names[0])[:-3])


if len(sys.argv) < 2:
    raise SystemExit('usage: check ID [--thorough] [--group NAME] [--replay FILE]')

sys.exit(core.main(sys.argv[1], load, sys.argv[2:]))
