"""helper used while developing: exact substitution in /repo + one commit"""
import subprocess
def subs(pairs, msg):
    for f, a, b in pairs:
        p = '/repo/cxx/' + f if not f.startswith('py/') else '/repo/' + f
        s = open(p).read(); assert s.count(a) == 1, (f, a, s.count(a)); open(p, 'w').write(s.replace(a, b))
    if msg:
        subprocess.check_call(['git', '-C', '/repo', 'commit', '-qam', msg])
        print(subprocess.check_output(['git', '-C', '/repo', 'log', '--oneline', '-1'], text=True).strip())
