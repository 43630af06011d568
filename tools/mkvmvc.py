#!/usr/bin/env python3
"""Write contracts/c11_ops.vc from the reference tables of the oracle (opcode -> Go type,
stack effect): one contract per Execute method with a fixed stack effect."""
import re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ops = {}
for l in re.search(r'specOps = `(.*?)`', open(root+'/oracle/teal/spec_test.go').read(), re.S).group(1).split('\n'):
    p = l.split('\t')
    if len(p) == 5: ops[p[0]] = p
eff = {}
for l in re.search(r'specEffects = `(.*?)`', open(root+'/oracle/teal/vmspec_test.go').read(), re.S).group(1).split('\n'):
    p = l.split('\t')
    if len(p) == 3: eff[p[0]] = (p[1], p[2])
special = set('err return bnz bz b switch match callsub proto retsub dup dup2 swap popn dupn dig bury cover uncover frame_dig frame_bury pushints pushbytess store stores'.split())
noexec = set('intcblock bytecblock itxn_begin itxn_next itxn_submit'.split())
table = {'txn': 'txnFieldSpecs', 'global': 'globalFieldSpecs', 'asset': 'assetParamsFieldSpecs', 'app': 'appParamsFieldSpecs', 'acct': 'acctParamsFieldSpecs', 'block': 'blockFieldSpecs', 'holding': 'assetHoldingFieldSpecs'}
code = {'U': 2, 'B': 3, '.': 1}
out = ['# Generated by tools/mkvmvc.py from the reference tables of the oracle: the stack effect',
       '# of every opcode with a fixed number of operands (types: 1 any, 2 integer, 3 bytes).']
done = set()
alias = {'extract': ('ExtractExpr', 'extract'), 'replace': None}
for name in sorted(eff):
    if name in special or name in noexec: continue
    if name not in ops: raise SystemExit('no op ' + name)
    types = ops[name][4].split()
    ty = types[0]
    if name == 'extract': ty = types[1]
    ty = ty.split('(')[0]
    if ty in done: raise SystemExit('twice ' + ty)
    done.add(ty)
    ins, outs = eff[name]
    n, m = len(ins), len(outs)
    kind = ''
    if name != 'itxn_field':
        for a in ops[name][3].split():
            k = re.sub(r'a$', '', a) if a in ('txna',) else a
            if k in table: kind = k
    o = ['', f'# {name}', f'func teal.(*{ty}).Execute(e, b) (r)', '  props C11']
    o.append('  requires e != nil && VS(b)' + (' && b.vm != nil' if name in ('load',) else ''))
    N = 'len(b.Stack.Items)'
    enough = [f'{n} <= {N}'] if n else []
    for j, c in enumerate(ins):
        if c != '.': enough.append(f'tyOK({code[c]}, b.Stack.Items[{N}-{n-j}])')
    if enough: o.append('  ensures operands: ' + 'old(' + ' && '.join(enough) + ')')
    o.append(f'  ensures height: {N} == old({N}) - {n} + {m}')
    o.append(f'  ensures below: forall(k, 0, old({N})-{n}, b.Stack.Items[k] == old(b.Stack.Items[k]))')
    for j, c in enumerate(outs):
        at = f'b.Stack.Items[old({N})-{n-j}]' if n-j > 0 else (f'b.Stack.Items[old({N})+{j-n}]' if j > n else f'b.Stack.Items[old({N})]')
        if c != '.': o.append(f'  ensures result{j}: {at}.T == {code[c]}')
        elif kind: o.append(f'  ensures result{j}: fieldVm({table[kind]}[e.Field].ftype, {at}.T)')
        else: o.append(f'  ensures result{j}: valT({at}.T)')
    o.append('  ensures next: b.Line == old(b.Line) + 1 && own(b)')
    pan = ' && '.join(enough) if enough else 'true'
    if kind:
        pan += f' && 0 <= e.Field && e.Field < {ops and "len("+table[kind]+")"} && fieldOK({table[kind]}[e.Field].ftype)'
    o.append(f'  panics stuck: !old({pan})')
    o.append('  panics kept: stay(b) && own(b)')
    o.append('  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)')
    out += o
open(root+'/contracts/c11_ops.vc', 'w').write('\n'.join(out) + '\n')
print(len(done))
