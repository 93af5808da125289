import sys, importlib
from rv import core

if __name__ == '__main__':
    pid = sys.argv[1]

    def run(ctx):
        mod = importlib.import_module(f'rv.checks.{pid.lower()}')
        mod.run(ctx)
    core.main(pid, run)
