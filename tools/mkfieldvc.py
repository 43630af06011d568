#!/usr/bin/env python3
"""Writes contracts/c06_fields.vc: the contracts of the readers of named fields."""
import os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
R=[("readAssetHoldingField","assetHoldingFieldSpecByName"),("readVrfVerifyField","vrfStandardSpecByName"),("readBlockField","blockFieldSpecByName"),
("readAcctParams","acctParamsFieldSpecByName"),("readAppParamsField","appParamsFieldSpecByName"),("readAssetParamsField","assetParamsFieldSpecByName"),
("readGlobalField","globalFieldSpecByName"),("readBase64EncodingField","base64EncodingSpecByName"),("readJsonRefField","jsonRefSpecByName"),
("readEcdsaCurveIndex","ecdsaCurveSpecByName"),("readEcGroupField","ecGroupSpecByName")]
o='''# generated by tools/mkfieldvc.py
# integers as text: strconv.ParseUint / ParseInt, named by what they return
def okU(s, b, n) = ext("strconv.ParseUint#1", error, s, b, n) == nil
def uval(s, b, n) = ext("strconv.ParseUint#0", uint64, s, b, n)
def okS(s, b, n) = ext("strconv.ParseInt#1", error, s, b, n) == nil
def sval(s, b, n) = ext("strconv.ParseInt#0", int64, s, b, n)
def okU8(s) = okU(s, 10, 8)
def u8(s) = uval(s, 10, 8)
def okI8(s) = okS(s, 10, 8)
def i8(s) = sval(s, 10, 8)
def okU64(s) = okU(s, 0, 64)
def u64(s) = uval(s, 0, 64)

extern strconv.ParseUint(s, base, bits) (v, err)
  ensures range: imp(err == nil && bits == 8, v < 256)
  flags pure
axiom hexDigits(s string) trigger(okU(s, 16, 8)): imp(okU(s, 16, 8), forall(k, 0, len(s), s[k] != '\\\\'))
extern strconv.ParseInt(s, base, bits) (v, err)
  ensures range: imp(err == nil && bits == 8, -128 <= v && v < 128)
  flags pure

extern github.com/pkg/errors.Errorf(f, a) (err)
  ensures some: err != nil
  flags pure
extern github.com/pkg/errors.New(f) (err)
  ensures some: err != nil
  flags pure
extern github.com/pkg/errors.Wrap(e, m) (err)
  ensures same: iff(err == nil, e == nil)
  flags pure
extern github.com/pkg/errors.Wrapf(e, m, a) (err)
  ensures same: iff(err == nil, e == nil)
  flags pure

func teal.readUint8(s) (v, err)
  props C07
  ensures accept: iff(err == nil, okU8(s))
  ensures value: imp(err == nil, v == u8(s))
  modifies nothing
  flags inline
func teal.readInt8(s) (v, err)
  props C07
  ensures accept: iff(err == nil, okI8(s))
  ensures value: imp(err == nil, v == i8(s))
  modifies nothing
  flags inline
func teal.readInt(a) (v, err)
  props C07
  requires a != nil && 0 < a.i && a.i <= len(a.ts)
  ensures accept: iff(err == nil, okU64(a.ts[a.i-1].v))
  ensures value: imp(err == nil, v == u64(a.ts[a.i-1].v))
  modifies nothing
  flags inline
def constInt(s) = dom(txnTypeMap, s) || dom(onCompletionMap, s)
def okC(s) = constInt(s) || okU64(s)
def cval(s) = ite(dom(txnTypeMap, s), txnTypeMap[s], ite(dom(onCompletionMap, s), onCompletionMap[s], u64(s)))
func teal.readConstInt(a) (v, err)
  props C07
  requires a != nil && 0 < a.i && a.i <= len(a.ts)
  ensures accept: iff(err == nil, okC(a.ts[a.i-1].v))
  ensures value: imp(err == nil, v == cval(a.ts[a.i-1].v))
  modifies nothing
  flags inline

# a named field is accepted from its version on, a number always
def okTxn(k, v, s) = ite(dom(txnFieldSpecByName, s), imp(k == 1, txnFieldSpecByName[s].array) && ite(k == 2, txnFieldSpecByName[s].itxVersion != 0 && txnFieldSpecByName[s].itxVersion <= v, txnFieldSpecByName[s].version <= v), okU8(s))
def txnVal(s) = ite(dom(txnFieldSpecByName, s), txnFieldSpecByName[s].field, u8(s))
func teal.readTxnField(k, v, s) (f, named, err)
  props C06
  requires 0 <= k && k <= 2
  ensures accept: iff(err == nil, okTxn(k, v, s))
  ensures value: imp(err == nil, f == txnVal(s))
  ensures named: iff(named, dom(txnFieldSpecByName, s))
  modifies nothing
  flags inline
'''
for f,m in R:
    n=f[4:]
    ver='9' if n=='EcGroupField' else m+'[s].version'
    o+=f'''
def ok{n}(v, s) = ite(dom({m}, s), {ver} <= v, okU8(s))
def val{n}(s) = ite(dom({m}, s), {m}[s].field, u8(s))
func teal.{f}(v, s) (f, named, err)
  props C06
  ensures accept: iff(err == nil, ok{n}(v, s))
  ensures value: imp(err == nil, f == val{n}(s))
  ensures named: iff(named, dom({m}, s))
  modifies nothing
  flags inline
'''
open('contracts/c06_fields.vc','w').write(o)
