"""Deciding a case in a process of its own, for what cannot be undone in this one (classes and modules which were loaded)."""
import json
import os
import signal
import traceback

from vf import core


def isolated(work, ctx):
    """work() in a forked process; its tags, and its violation if there is one, are this process's."""
    reader, writer = os.pipe()
    pid = os.fork()
    if pid == 0:
        result = {}
        try:
            os.close(reader)
            signal.signal(signal.SIGPROF, core._out_of_time)
            signal.setitimer(signal.ITIMER_PROF, core.CPU_LIMIT)
            try:
                work()
            except core.Violation as e:
                result['violation'] = str(e)
            except core.HarnessError as e:
                result['harness'] = str(e)
            except core._OutOfTime:
                result['violation'] = 'no answer after %d s of processor time' % core.CPU_LIMIT
            except BaseException as e:
                try:
                    core._reraise_environment(e)
                    result['violation'] = 'unexpected %s: %s\n%s' % (type(e).__name__, e, ''.join(
                        traceback.format_exc().splitlines(True)[-8:]))
                except core.HarnessError as h:
                    result['harness'] = str(h)
            signal.setitimer(signal.ITIMER_PROF, 0)
            result.update(tags=ctx.tags, nontrivial=ctx.is_nontrivial)
            with os.fdopen(writer, 'w') as f:
                json.dump(result, f)
        finally:
            os._exit(0)
    os.close(writer)
    with os.fdopen(reader) as f:
        text = f.read()
    os.waitpid(pid, 0)
    if not text:
        raise core.HarnessError('the process which decides a case came to nothing')
    result = json.loads(text)
    ctx.tags, ctx.is_nontrivial = result['tags'], result['nontrivial']
    if 'harness' in result:
        raise core.HarnessError(result['harness'])
    if 'violation' in result:
        raise core.Violation(result['violation'])
