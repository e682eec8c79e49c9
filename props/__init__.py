import importlib
import os


def load(pid):
  """The property object, importing the module that registers it."""
  from props import common
  here = os.path.dirname(os.path.abspath(__file__))
  for f in sorted(os.listdir(here)):
    if f.endswith('.py') and f.startswith('p') and pid.lower() in f.split('.')[0].split('_'):
      importlib.import_module('props.' + f[:-3])
  return common.PROPS[pid]
