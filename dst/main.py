#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine

def main(a):
    if len(a) >= 2 and a[0] == 'check':
        return engine.check(a[1], a[2] if len(a) > 2 else None)
    if len(a) == 2 and a[0] == 'replay':
        return engine.replay(a[1])
    if a == ['list']:
        import props
        print(' '.join(props.ALL))
        return 0
    sys.stderr.write('usage: main.py check <property> [quick|thorough] | replay <file> | list\n')
    return 2

if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code) if False else sys.exit(code)
