import importlib, sys
from mc import core
if __name__ == '__main__':
    prop = sys.argv[1]
    mod = importlib.import_module(f'checks.{prop.lower()}')
    core.main(prop, mod.run)
