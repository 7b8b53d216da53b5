"""Readable rendering of dumped trees (diagnostics only)."""
import json
import sys


def pat(p):
    k = p['k']
    if k == 'Bind':
        return p['n'] + '#' + p['id'] + ('@' + pat(p['sub']) if 'sub' in p else '')
    if k == 'Wild':
        return '_'
    if k == 'Tuple':
        return '(' + ','.join(map(pat, p['ps'])) + ')'
    if k == 'TStruct':
        return p['path'].get('def', '?') + '(' + ','.join(map(pat, p['ps'])) + ')'
    if k == 'Ref':
        return '&' + pat(p['p'])
    if k == 'Struct':
        return p['path'].get('def', '?') + '{' + ','.join(f['n'] + ':' + pat(f['p']) for f in p['fs']) + '}'
    if k == 'Lit':
        return repr(p.get('v'))
    if k == 'Path':
        return p.get('def', '?')
    if k == 'Or':
        return '|'.join(map(pat, p['ps']))
    return k


def ex(n, ind=0):
    I = '  ' * ind
    if n is None:
        return '?'
    k = n['k']
    e = lambda x: ex(x, ind)
    if k == 'Path':
        return n.get('n', '?') + '#' + n['id'] if n['r'] == 'local' else '`%s`' % (n.get('def') or n.get('r'))
    if k == 'Lit':
        return repr(n.get('v', n.get('vs')))
    if k == 'Call':
        return e(n['f']) + '(' + ', '.join(map(e, n['a'])) + ')'
    if k == 'MCall':
        return e(n['s']) + '.' + n['m'] + '(' + ', '.join(map(e, n['a'])) + ')'
    if k == 'Bin':
        return '(' + e(n['l']) + n['op'] + e(n['rh']) + ')'
    if k == 'Un':
        return n['op'] + e(n['e'])
    if k == 'Cast':
        return e(n['e']) + ' as _'
    if k == 'LetE':
        return 'let ' + pat(n['p']) + ' = ' + e(n['e'])
    if k == 'If':
        return 'if ' + e(n['c']) + ' ' + e(n['th']) + (' else ' + e(n['el']) if 'el' in n else '')
    if k == 'While':
        return 'while ' + e(n['c']) + ' ' + e(n['b'])
    if k == 'Loop':
        return 'loop ' + e(n['b'])
    if k == 'For':
        return 'for ' + pat(n['p']) + ' in ' + e(n['it']) + ' ' + e(n['b'])
    if k == 'Match':
        return 'match ' + e(n['e']) + ' {\n' + ''.join(
            I + '  ' + pat(a['p']) + (' if ' + e(a['g']) if 'g' in a else '') + ' => ' + ex(a['b'], ind + 1) + ',\n' for a in n['arms']) + I + '}'
    if k == 'Await':
        return e(n['e']) + '.await'
    if k == 'Try':
        return e(n['e']) + '?'
    if k == 'Closure':
        return n['ck'] + ('|move' if n['mv'] else '|') + ','.join(map(pat, n['params'])) + '| ' + e(n['body'])
    if k == 'Block':
        s = '{\n'
        for st in n['st']:
            s += '  ' * (ind + 1) + ex(st, ind + 1) + ';\n'
        if 'e' in n:
            s += '  ' * (ind + 1) + ex(n['e'], ind + 1) + '\n'
        return s + I + '}'
    if k == 'SLet':
        return 'let ' + pat(n['p']) + (' = ' + e(n['e']) if 'e' in n else '')
    if k == 'SItem':
        return 'item ' + n['def']
    if k in ('Assign', 'AssignOp'):
        return e(n['l']) + ' ' + n.get('op', '') + '= ' + e(n['rh'])
    if k == 'Field':
        return e(n['e']) + '.' + n['n']
    if k == 'Index':
        return e(n['e']) + '[' + e(n['i']) + ']'
    if k == 'Ref':
        return ('&mut ' if n['mut'] else '&') + e(n['e'])
    if k in ('Break', 'Ret'):
        return k.lower() + (' ' + e(n['e']) if 'e' in n else '')
    if k == 'Struct':
        return n['path'].get('def', '?') + '{' + ', '.join(f['n'] + ':' + e(f['e']) for f in n['fs']) + '}'
    if k in ('Tup', 'Array'):
        return '(['[k == 'Array'] + ', '.join(map(e, n['a'])) + ')]'[k == 'Array']
    if k == 'Repeat':
        return '[' + e(n['e']) + '; ' + n.get('n', '?') + ']'
    return k


if __name__ == '__main__':
    d = json.load(open(sys.argv[1]))
    for b in d['bodies']:
        if sys.argv[2] in b['id'] or sys.argv[2] in b['path']:
            print(b['id'], '|', b['path'], b['file'], b['line'])
            print('(' + ', '.join(map(pat, b['params'])) + ')', ex(b['body']))
