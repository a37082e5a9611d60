"""Runs TLC on a module of /verif/spec; -> its output, parsed."""
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


class Result:
    def __init__(self, output, returncode):
        self.output, self.returncode = output, returncode
        m = re.search(r'^(\d+) states generated, (\d+) distinct states found', output, re.M)
        self.generated, self.distinct = (int(m[1]), int(m[2])) if m else (0, 0)
        self.completed = 'Model checking completed. No error has been found.' in output
        self.violated = 'is violated' in output

    def tuples(self, head):
        """printed tuples <<"head", ...>>, as raw text"""
        # printed as strings: TLC breaks the lines of longer values
        found = [m[1].replace('\\"', '"') for m in
                 re.finditer(r'^"<<\\"%s\\", (.*)>>"$' % re.escape(head), self.output, re.M)]
        if len(found) != self.output.count(head):
            raise MachineryError(f'{head} not understood in\n{self.output[-3000:]}')
        return found


def run(module, config=None, env=None, workers=8, memory='6g', timeout=800, extra=()):
    meta = tempfile.mkdtemp(prefix='orient-tlc-')
    try:
        command = ['java', '-XX:+UseParallelGC', f'-Xmx{memory}', '-Xss64m', f'-Djava.io.tmpdir={meta}',
                   '-cp', JARS, 'tlc2.TLC', '-noTE', '-workers', str(workers), '-metadir', meta,
                   '-config', os.path.join(SPEC, (config or module) + '.cfg'), *extra,
                   os.path.join(SPEC, module + '.tla')]
        p = subprocess.run(command, cwd=meta, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return Result(p.stdout.decode(errors='replace'), p.returncode)
    except subprocess.TimeoutExpired as error:
        raise MachineryError(f'TLC did not finish {module} within {timeout} s') from error
    finally:
        shutil.rmtree(meta, ignore_errors=True)
