#!/usr/bin/env python3
"""setup_cmd: every check builds its own monitors from /repo's working tree, so only the tools are checked here."""
import subprocess, sys, tempfile, os
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 't.cpp')
    open(p, 'w').write('int main(){return 0;}')
    for san in ('address,undefined', 'thread'):
        subprocess.check_call(['g++', '-fsanitize=' + san, p, '-o', d + '/t'])
        subprocess.check_call([d + '/t'])
    subprocess.check_call(['valgrind', '-q', '--version'], stdout=subprocess.DEVNULL)
print('tools present')
