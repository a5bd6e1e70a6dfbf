"""A second interpreter with another hash seed: runs observe() of a check module for requests received as JSON lines."""
import importlib
import json
import os
import subprocess
import sys

from . import core


class Peer:
    """Client side: ask another interpreter to run module.observe(*args)."""

    def __init__(self, module):
        own = int(os.environ.get("PYTHONHASHSEED", "0") or 0)
        env = dict(os.environ, PYTHONHASHSEED=str((own * 31 + 4242) % 4294967295), PYTHONPATH=core.VERIF)
        self.proc = subprocess.Popen([core.PYTHON, "-B", "-W", "ignore", "-m", "vmon.peer", module], env=env, cwd=os.getcwd(),
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.hashseed = env["PYTHONHASHSEED"]

    def ask(self, *args):
        self.proc.stdin.write(json.dumps(args) + "\n")
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            raise AttributeError("peer interpreter died")
        return json.loads(line)


def main():
    core.prepare_imports()
    module = importlib.import_module(sys.argv[1])
    out, sys.stdout = sys.stdout, sys.stderr
    for line in sys.stdin:
        try:
            reply = module.observe(*json.loads(line))
        except core.Reject:
            reply = {"rejected": True}
        except Exception as exc:  # pylint: disable=broad-except
            import traceback

            reply = {"error": type(exc).__name__ + "\n" + traceback.format_exc(limit=-6)}
        out.write(json.dumps(reply) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
