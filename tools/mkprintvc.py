#!/usr/bin/env python3
"""Writes contracts/c16_print.vc: the text every instruction prints, from the tables of mkparsevc.py (the opcode, then its
immediates in the order the parser reads them). An immediate that names a field may be printed by name or by number."""
import os,re,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import mkparsevc as m
ENUM={'txn':'TxnField','txna':'TxnField','itxn':'TxnField','curve':'EcdsaCurve','global':'GlobalField','b64':'Base64Encoding','json':'JSONRefType','holding':'AssetHoldingField',
 'aparams':'AssetParamsField','app':'AppParamsField','acct':'AcctParamsField','group':'EcGroup','vrf':'VrfStandard','block':'BlockField'}
o='''# C16: the printed text of every instruction. Generated by tools/mkprintvc.py
def dec(x) = ext("dec", string, x)
'''
for t in sorted(set(ENUM.values())):
    o+='''
# the name tables (static data) are enumerated by the oracle
extern teal.(%s).String(f) (s)
  flags pure
def nm%s(x) = ext("teal.(%s).String", string, x)
'''%(t,t,t)
name={}; typ={}
for l in m.OPS.split('\n'):
    w=l.split()
    if w:
        name[w[0]]=w[1]
        if w[4]!='-': typ.setdefault(w[4],[]).append((w[1],[]))
for l in m.T.split('\n'):
    w=l.split()
    if w: typ.setdefault(w[1],[]).append((name[w[0]],[tuple(x.split(':')) for x in w[2:]]))
for fn,(a,ta,b,tb) in m.ALT.items():
    typ.setdefault(ta,[]).append((name[fn],a)); typ.setdefault(tb,[]).append((name[fn],b))
typ['AddrExpr']=[('addr',[('Address','label')])]
typ['PragmaExpr']=[('#pragma version',[('Version','u64')])]
for t in sorted(typ):
    alts=[]
    for n,im in typ[t]:
        # the spelling with an operand is the instruction's own; a bare alias must not swallow them
        texts=['"%s'%n]
        for f,k in im:
            x='e.'+f
            vs=[x] if k=='label' else ['dec(%s)'%x]
            if k in ENUM: vs.append('nm%s(%s)'%(ENUM[k],x))
            texts=[s+' " + '+v+' + "' for s in texts for v in vs]
        for s in texts:
            s+='"'
            s=s.replace(' + ""','')
            if s not in alts: alts.append(s)
    req='\n  requires e != nil'+(' && e.Label != nil' if any(f=='Label.Name' for n,im in typ[t] for f,k in im) else '')
    o+='''
func teal.(*%s).String(e) (r)
  props C16%s
  ensures text: %s
  modifies nothing
'''%(t,req,' || '.join('r == '+a for a in alts))
o+='''
func teal.(*LabelExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == e.Name + ":"
  modifies nothing
'''
o+=open('tools/c16_lists.txt').read()
open('contracts/c16_print.vc','w').write(o)
