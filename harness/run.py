"""Usage: run.py <property id>.  Runs one property's check.

The check runs in a child process.  A child that makes no progress at all (no
processor time used by it or by its own children for a long time) is ended, with the
stacks of its threads printed, and started once more: threads of the libraries
underneath can deadlock when processes are short of memory or processors.
"""
import faulthandler
import importlib
import os
import signal
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
STALL = int(os.environ.get('VERIF_STALL', '170'))


def check(pid):
    from harness import common, env
    faulthandler.register(signal.SIGUSR1, file=open(os.environ['VERIF_STACKS'], 'w'), all_threads=True)
    mod = importlib.import_module('harness.checks.' + pid.lower())
    env.setup(devices=getattr(mod, 'DEVICES', None))
    chk = common.Check(pid)
    try:
        mod.run(chk)
    except Exception as e:  # pylint: disable=broad-except
        if common.from_repo(e):
            # The code under test failed where the specification says it works.
            chk.violation('exception', '%s: %s' % (type(e).__name__, str(e)[:300]),
                          common.short_tb(e))
        else:
            raise
    code = chk.finish()
    sys.stdout.flush()
    os._exit(code)


def used(group):
    """Processor time used so far by the processes of a group, in ticks."""
    total = 0
    for p in os.listdir('/proc'):
        if p.isdigit():
            try:
                with open('/proc/%s/stat' % p) as f:
                    s = f.read().rpartition(')')[2].split()
            except OSError:
                continue
            if int(s[2]) == group:
                total += sum(map(int, s[11:15]))
    return total


def watch(pid, stacks):
    """The exit code of the check, or None if it stalled."""
    p = subprocess.Popen([sys.executable] + sys.argv, start_new_session=True,
                         env=dict(os.environ, VERIF_STACKS=stacks))

    def end(*_):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    signal.signal(signal.SIGTERM, lambda *_: (end(), os._exit(143)))
    try:
        last, since = -1, time.time()
        while True:
            try:
                return p.wait(timeout=5)
            except subprocess.TimeoutExpired:
                pass
            u = used(p.pid)
            if abs(u - last) > 100:
                last, since = u, time.time()
            elif time.time() - since > STALL:
                os.kill(p.pid, signal.SIGUSR1)
                time.sleep(3)
                return None
    finally:
        end()


def main():
    pid = sys.argv[1]
    if 'VERIF_STACKS' in os.environ:
        return check(pid)
    stacks = os.path.join(os.environ.get('TMPDIR', '/tmp'), 'stacks.%d' % os.getpid())
    from harness import common
    for attempt in (1, 2):
        code = watch(pid, stacks)
        if code is not None:
            os._exit(code if code >= 0 else 2)
        text = open(stacks).read()
        print('[%s] attempt %d made no progress for %d s:\n%s' % (pid, attempt, STALL, text[-6000:]), flush=True)
    if common.REPO + '/' in text:
        chk = common.Check(pid)
        chk.violation('no progress', 'the code under test blocks for ever', text)
        os._exit(chk.finish())
    os._exit(2)


if __name__ == '__main__':
    main()
