#!/usr/bin/env python3
"""Pretty-print one instance of the fact base (debugging aid)."""
import json, sys

def main():
    d = json.load(open(sys.argv[1])); pat = sys.argv[2]
    I, T = d['insts'], d['types']
    for n, i in enumerate(I):
        if pat in i['full'] and i['body']:
            pp(d, n)
            if len(sys.argv) > 3: continue
            break

def tn(T, t, depth=0):
    if t is None: return '?'
    x = T[t]; k = x['k']
    if depth > 4: return '..'
    f = lambda u: tn(T, u, depth + 1)
    if k in ('int', 'uint', 'float'): return x['n']
    if k == 'ref': return '&' + ('mut ' if x['m'] else '') + f(x['t'])
    if k == 'ptr': return '*' + f(x['t'])
    if k == 'tuple': return '(' + ','.join(map(f, x['ts'])) + ')'
    if k == 'adt': return x['n'].split('::')[-1] + '<' + ','.join(f(a['t']) if 't' in a else str(a.get('c', "'")) for a in x['args']) + '>'
    if k == 'array': return '[%s;%s]' % (f(x['t']), x['len'])
    if k == 'slice': return '[%s]' % f(x['t'])
    if k == 'fndef': return 'fn ' + x['n']
    if k == 'closure': return 'closure ' + x['n']
    return k + str(x.get('traits', ''))

def pp(d, n):
    I, T = d['insts'], d['types']; i = I[n]; b = i['body']
    print('=== inst', n, i['full'], i['kind'], i['file'], i['line'])
    for k, t in enumerate(b['locals']): print('  let _%d: %s' % (k, tn(T, t)))
    print('  vars', b['vars'])
    for k, bb in enumerate(b['blocks']):
        print(' bb%d:' % k)
        for s in bb['s']: print('    ', json.dumps(s))
        t = bb['t']
        if t[0] == 'call':
            print('    CALL', tn(T, t[6]), json.dumps(t[2]), '->', json.dumps(t[3]), 'bb', t[4], 'line', t[5], 'i=', T[t[6]].get('i'))
        else: print('    ', json.dumps(t))

if __name__ == '__main__':
    main()
