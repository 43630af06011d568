# generated by tools/mkfieldvc.py
# integers as text: strconv.ParseUint / ParseInt, named by what they return
def okU(s, b, n) = ext("strconv.ParseUint#1", error, s, b, n) == nil
def uval(s, b, n) = ext("strconv.ParseUint#0", uint64, s, b, n)
def okS(s, b, n) = ext("strconv.ParseInt#1", error, s, b, n) == nil
def sval(s, b, n) = ext("strconv.ParseInt#0", int64, s, b, n)
def okU8(s) = okU(s, 10, 8)
def u8(s) = uval(s, 10, 8)
def okI8(s) = okS(s, 10, 8)
def i8(s) = sval(s, 10, 8)
def okU64(s) = okU(s, 0, 64)
def u64(s) = uval(s, 0, 64)

extern strconv.ParseUint(s, base, bits) (v, err)
  ensures range: imp(err == nil && bits == 8, v < 256)
  flags pure
axiom hexDigits(s string) trigger(okU(s, 16, 8)): imp(okU(s, 16, 8), forall(k, 0, len(s), s[k] != '\\'))
extern strconv.ParseInt(s, base, bits) (v, err)
  ensures range: imp(err == nil && bits == 8, -128 <= v && v < 128)
  flags pure

extern github.com/pkg/errors.Errorf(f, a) (err)
  ensures some: err != nil
  flags pure
extern github.com/pkg/errors.New(f) (err)
  ensures some: err != nil
  flags pure
extern github.com/pkg/errors.Wrap(e, m) (err)
  ensures same: iff(err == nil, e == nil)
  flags pure
extern github.com/pkg/errors.Wrapf(e, m, a) (err)
  ensures same: iff(err == nil, e == nil)
  flags pure

func teal.readUint8(s) (v, err)
  props C07
  ensures accept: iff(err == nil, okU8(s))
  ensures value: imp(err == nil, v == u8(s))
  modifies nothing
  flags inline
func teal.readInt8(s) (v, err)
  props C07
  ensures accept: iff(err == nil, okI8(s))
  ensures value: imp(err == nil, v == i8(s))
  modifies nothing
  flags inline
func teal.readInt(a) (v, err)
  props C07
  requires a != nil && 0 < a.i && a.i <= len(a.ts)
  ensures accept: iff(err == nil, okU64(a.ts[a.i-1].v))
  ensures value: imp(err == nil, v == u64(a.ts[a.i-1].v))
  modifies nothing
  flags inline
def constInt(s) = dom(txnTypeMap, s) || dom(onCompletionMap, s)
def okC(s) = constInt(s) || okU64(s)
def cval(s) = ite(dom(txnTypeMap, s), txnTypeMap[s], ite(dom(onCompletionMap, s), onCompletionMap[s], u64(s)))
func teal.readConstInt(a) (v, err)
  props C07
  requires a != nil && 0 < a.i && a.i <= len(a.ts)
  ensures accept: iff(err == nil, okC(a.ts[a.i-1].v))
  ensures value: imp(err == nil, v == cval(a.ts[a.i-1].v))
  modifies nothing
  flags inline

# a named field is accepted from its version on, a number always
def okTxn(k, v, s) = ite(dom(txnFieldSpecByName, s), imp(k == 1, txnFieldSpecByName[s].array) && ite(k == 2, txnFieldSpecByName[s].itxVersion != 0 && txnFieldSpecByName[s].itxVersion <= v, txnFieldSpecByName[s].version <= v), okU8(s))
def txnVal(s) = ite(dom(txnFieldSpecByName, s), txnFieldSpecByName[s].field, u8(s))
func teal.readTxnField(k, v, s) (f, named, err)
  props C06
  requires 0 <= k && k <= 2
  ensures accept: iff(err == nil, okTxn(k, v, s))
  ensures value: imp(err == nil, f == txnVal(s))
  ensures named: iff(named, dom(txnFieldSpecByName, s))
  modifies nothing
  flags inline

def okAssetHoldingField(v, s) = ite(dom(assetHoldingFieldSpecByName, s), assetHoldingFieldSpecByName[s].version <= v, okU8(s))
def valAssetHoldingField(s) = ite(dom(assetHoldingFieldSpecByName, s), assetHoldingFieldSpecByName[s].field, u8(s))
func teal.readAssetHoldingField(v, s) (f, named, err)
  props C06
  ensures accept: iff(err == nil, okAssetHoldingField(v, s))
  ensures value: imp(err == nil, f == valAssetHoldingField(s))
  ensures named: iff(named, dom(assetHoldingFieldSpecByName, s))
  modifies nothing
  flags inline

def okVrfVerifyField(v, s) = ite(dom(vrfStandardSpecByName, s), vrfStandardSpecByName[s].version <= v, okU8(s))
def valVrfVerifyField(s) = ite(dom(vrfStandardSpecByName, s), vrfStandardSpecByName[s].field, u8(s))
func teal.readVrfVerifyField(v, s) (f, named, err)
  props C06
  ensures accept: iff(err == nil, okVrfVerifyField(v, s))
  ensures value: imp(err == nil, f == valVrfVerifyField(s))
  ensures named: iff(named, dom(vrfStandardSpecByName, s))
  modifies nothing
  flags inline

def okBlockField(v, s) = ite(dom(blockFieldSpecByName, s), blockFieldSpecByName[s].version <= v, okU8(s))
def valBlockField(s) = ite(dom(blockFieldSpecByName, s), blockFieldSpecByName[s].field, u8(s))
func teal.readBlockField(v, s) (f, named, err)
  props C06
  ensures accept: iff(err == nil, okBlockField(v, s))
  ensures value: imp(err == nil, f == valBlockField(s))
  ensures named: iff(named, dom(blockFieldSpecByName, s))
  modifies nothing
  flags inline

def okAcctParams(v, s) = ite(dom(acctParamsFieldSpecByName, s), acctParamsFieldSpecByName[s].version <= v, okU8(s))
def valAcctParams(s) = ite(dom(acctParamsFieldSpecByName, s), acctParamsFieldSpecByName[s].field, u8(s))
func teal.readAcctParams(v, s) (f, named, err)
  props C06
  ensures accept: iff(err == nil, okAcctParams(v, s))
  ensures value: imp(err == nil, f == valAcctParams(s))
  ensures named: iff(named, dom(acctParamsFieldSpecByName, s))
  modifies nothing
  flags inline

def okAppParamsField(v, s) = ite(dom(appParamsFieldSpecByName, s), appParamsFieldSpecByName[s].version <= v, okU8(s))
def valAppParamsField(s) = ite(dom(appParamsFieldSpecByName, s), appParamsFieldSpecByName[s].field, u8(s))
func teal.readAppParamsField(v, s) (f, named, err)
  props C06
  ensures accept: iff(err == nil, okAppParamsField(v, s))
  ensures value: imp(err == nil, f == valAppParamsField(s))
  ensures named: iff(named, dom(appParamsFieldSpecByName, s))
  modifies nothing
  flags inline

def okAssetParamsField(v, s) = ite(dom(assetParamsFieldSpecByName, s), assetParamsFieldSpecByName[s].version <= v, okU8(s))
def valAssetParamsField(s) = ite(dom(assetParamsFieldSpecByName, s), assetParamsFieldSpecByName[s].field, u8(s))
func teal.readAssetParamsField(v, s) (f, named, err)
  props C06
  ensures accept: iff(err == nil, okAssetParamsField(v, s))
  ensures value: imp(err == nil, f == valAssetParamsField(s))
  ensures named: iff(named, dom(assetParamsFieldSpecByName, s))
  modifies nothing
  flags inline

def okGlobalField(v, s) = ite(dom(globalFieldSpecByName, s), globalFieldSpecByName[s].version <= v, okU8(s))
def valGlobalField(s) = ite(dom(globalFieldSpecByName, s), globalFieldSpecByName[s].field, u8(s))
func teal.readGlobalField(v, s) (f, named, err)
  props C06
  ensures accept: iff(err == nil, okGlobalField(v, s))
  ensures value: imp(err == nil, f == valGlobalField(s))
  ensures named: iff(named, dom(globalFieldSpecByName, s))
  modifies nothing
  flags inline

def okBase64EncodingField(v, s) = ite(dom(base64EncodingSpecByName, s), base64EncodingSpecByName[s].version <= v, okU8(s))
def valBase64EncodingField(s) = ite(dom(base64EncodingSpecByName, s), base64EncodingSpecByName[s].field, u8(s))
func teal.readBase64EncodingField(v, s) (f, named, err)
  props C06
  ensures accept: iff(err == nil, okBase64EncodingField(v, s))
  ensures value: imp(err == nil, f == valBase64EncodingField(s))
  ensures named: iff(named, dom(base64EncodingSpecByName, s))
  modifies nothing
  flags inline

def okJsonRefField(v, s) = ite(dom(jsonRefSpecByName, s), jsonRefSpecByName[s].version <= v, okU8(s))
def valJsonRefField(s) = ite(dom(jsonRefSpecByName, s), jsonRefSpecByName[s].field, u8(s))
func teal.readJsonRefField(v, s) (f, named, err)
  props C06
  ensures accept: iff(err == nil, okJsonRefField(v, s))
  ensures value: imp(err == nil, f == valJsonRefField(s))
  ensures named: iff(named, dom(jsonRefSpecByName, s))
  modifies nothing
  flags inline

def okEcdsaCurveIndex(v, s) = ite(dom(ecdsaCurveSpecByName, s), ecdsaCurveSpecByName[s].version <= v, okU8(s))
def valEcdsaCurveIndex(s) = ite(dom(ecdsaCurveSpecByName, s), ecdsaCurveSpecByName[s].field, u8(s))
func teal.readEcdsaCurveIndex(v, s) (f, named, err)
  props C06
  ensures accept: iff(err == nil, okEcdsaCurveIndex(v, s))
  ensures value: imp(err == nil, f == valEcdsaCurveIndex(s))
  ensures named: iff(named, dom(ecdsaCurveSpecByName, s))
  modifies nothing
  flags inline

def okEcGroupField(v, s) = ite(dom(ecGroupSpecByName, s), 9 <= v, okU8(s))
def valEcGroupField(s) = ite(dom(ecGroupSpecByName, s), ecGroupSpecByName[s].field, u8(s))
func teal.readEcGroupField(v, s) (f, named, err)
  props C06
  ensures accept: iff(err == nil, okEcGroupField(v, s))
  ensures value: imp(err == nil, f == valEcGroupField(s))
  ensures named: iff(named, dom(ecGroupSpecByName, s))
  modifies nothing
  flags inline
