#!/usr/bin/env python3
"""addf.py pkg.Message 'type name; ...' ... : append fields to a message of the .p files (development helper)"""
import re, sys, os
d = os.path.dirname(os.path.abspath(__file__)) + '/src/'
def main(args):
    for a in args:
        tgt, fs = a.split(' ', 1)
        fn, msg = tgt.split('.')
        p = d + fn + '.p'; s = open(p).read()
        m = re.search(r'^message ' + msg + r' \{', s, re.M)
        if not m: s += f'message {msg} {{ {fs} }}\n'
        else:
            i = m.end(); n = 1
            while n:
                n += {'{': 1, '}': -1}.get(s[i], 0); i += 1
            s = s[:i-1] + fs + ' ' + s[i-1:]
        open(p, 'w').write(s)
if __name__ == '__main__': main(sys.argv[1:])
