"""Insert a scheduling point before every atomic operation of the IR."""
import re, sys
at = re.compile(r'^\s+(%\S+ = )?(load atomic|store atomic|atomicrmw|cmpxchg)\b')
out = []
seen = False
for l in open(sys.argv[1]):
    if at.match(l):
        out.append('  call void @lisym_sp()\n')
    if '@llvm.x86.sse2.pause()' in l and not l.startswith('declare'):
        l = l.replace('@llvm.x86.sse2.pause()', '@lisym_pause()')
    out.append(l)
out.append('\ndeclare void @lisym_sp()\ndeclare void @lisym_pause()\n')
open(sys.argv[2], 'w').write(''.join(out))
