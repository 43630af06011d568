#!/usr/bin/env python3
"""Writes contracts/c07_imms.vc: for every opcode, which immediates its line must carry, when they are
accepted, and the instruction that results. The table below was written from the AVM specification's
immediates; the fields are those of the repository's instruction types."""
import os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
# kind -> (accepted(text), value(text))
K={'u8':('okU8(%s)','u8(%s)'),'i8':('okI8(%s)','i8(%s)'),'u64':('okU64(%s)','u64(%s)'),'const':('okC(%s)','cval(%s)'),
 'label':('true','%s'),
 'txn':('okTxn(0, ver(c), %s)','txnVal(%s)'),'txna':('okTxn(1, ver(c), %s)','txnVal(%s)'),'itxn':('okTxn(2, ver(c), %s)','txnVal(%s)')}
for k,n in [('curve','EcdsaCurveIndex'),('global','GlobalField'),('b64','Base64EncodingField'),('json','JsonRefField'),('holding','AssetHoldingField'),
 ('aparams','AssetParamsField'),('app','AppParamsField'),('acct','AcctParams'),('group','EcGroupField'),('vrf','VrfVerifyField'),('block','BlockField')]:
    K[k]=('ok%s(ver(c), %%s)'%n,('wrap8(val%s(%%s))' if k in('b64','json') else 'val%s(%%s)')%n)
# function, instruction type, [(field, kind)]
T='''
opInt IntExpr Value:const
opEcdsaVerify EcdsaVerifyExpr Index:curve
opEcdsaPkDecompress EcdsaPkDecompressExpr Index:curve
opEcdsaPkRecover EcdsaPkRecoverExpr Index:curve
opIntConstLoad IntcExpr Index:u8
opByteConstLoad BytecExpr Index:u8
opArg ArgExpr Index:u8
opGlobal GlobalExpr Field:global
opLoad LoadExpr Index:u8
opStore StoreExpr Index:u8
opTxna TxnaExpr Field:txna Index:u8
opGtxna GtxnaExpr Group:u8 Field:txna Index:u8
opGtxnsa GtxnsaExpr Field:txna Index:u8
opGload GloadExpr Group:u8 Index:u8
opGloads GloadsExpr Index:u8
opGaid GaidExpr Group:u8
opBnz BnzExpr Label.Name:label
opBz BzExpr Label.Name:label
opB BExpr Label.Name:label
opBury BuryExpr Depth:u8
opPopN PopNExpr Depth:u8
opDupN DupNExpr Count:u8
opDig DigExpr Index:u8
opCover CoverExpr Depth:u8
opUncover UncoverExpr Depth:u8
opSubstring SubstringExpr Start:u8 End:u8
opReplace2 Replace2Expr Start:u8
opBase64Decode Base64DecodeExpr Index:b64
opJSONRef JsonRefExpr Index:json
opAssetHoldingGet AssetHoldingGetExpr Field:holding
opAssetParamsGet AssetParamsGetExpr Field:aparams
opAppParamsGet AppParamsGetExpr Field:app
opAcctParamsGet AcctParamsGetExpr Field:acct
opPushInt PushIntExpr Value:u64
opCallSub CallSubExpr Label.Name:label
opProto ProtoExpr Args:u8 Results:u8
opFrameDig FrameDigExpr Index:i8
opFrameBury FrameBuryExpr Index:i8
opEcAdd EcAddExpr Group:group
opEcScalarMul EcScalarMul Group:group
opEcPairingCheck EcPairingCheckExpr Group:group
opEcMultiExp EcMultiExpExpr Group:group
opEcSubgroupCheck EcSubgroupCheckExpr Group:group
opEcMapTo EcMapToExpr Group:group
opItxnField ItxnFieldExpr Field:itxn
opItxn ItxnExpr Field:txn
opItxna ItxnaExpr Field:txna Index:u8
opGitxn GitxnExpr Index:u8 Field:txn
opGitxna GitxnaExpr Group:u8 Field:txna Index:u8
opTxnas TxnasExpr Field:txna
opGtxnas GtxnasExpr Index:u8 Field:txna
opGtxnsas GtxnsasExpr Field:txna
opItxnas ItxnasExpr Field:txna
opGitxnas GitxnasExpr Index:u8 Field:txna
opVrfVerify VrfVerifyExpr Field:vrf
opBlock BlockExpr Field:block
'''
# function: [(more, type, immediates)] : alternatives by the number of values on the line
ALT={
'opTxn':([('Field','txn')],'TxnExpr',[('Field','txn'),('Index','u8')],'TxnaExpr'),
'opGtxn':([('Group','u8'),('Field','txn')],'GtxnExpr',[('Group','u8'),('Field','txn'),('Index','u8')],'GtxnaExpr'),
'opGtxns':([('Field','txn')],'GtxnsExpr',[('Field','txn'),('Index','u8')],'GtxnsaExpr'),
'opReplace':([],'Replace3Expr',[('Start','u8')],'Replace2Expr'),
'opExtract':([],'Extract3Expr',[('Start','u8'),('Length','u8')],'ExtractExpr'),
}
# every opcode: function, name, first version in applications and in signatures (0: not available), instruction type when it has no immediates
OPS='''
opReplace replace 7 7 -
opByte byte 1 1 -
opInt int 1 1 -
opMethod method 1 1 -
opAddr addr 1 1 -
opErr err 1 1 ErrExpr
opSHA256 sha256 1 1 Sha256Expr
opKeccak256 keccak256 1 1 Keccak256Expr
opSHA512_256 sha512_256 1 1 Sha512256Expr
opEd25519Verify ed25519verify 5 1 ED25519VerifyExpr
opEcdsaVerify ecdsa_verify 5 5 -
opEcdsaPkDecompress ecdsa_pk_decompress 5 5 -
opEcdsaPkRecover ecdsa_pk_recover 5 5 -
opPlus + 1 1 PlusExpr
opMinus - 1 1 MinusExpr
opDiv / 1 1 DivExpr
opMul * 1 1 MulExpr
opLt < 1 1 LtExpr
opGt > 1 1 GtExpr
opLe <= 1 1 LtEqExpr
opGe >= 1 1 GtEqExpr
opAnd && 1 1 AndExpr
opOr || 1 1 OrExpr
opEq == 1 1 EqExpr
opNeq != 1 1 NeqExpr
opNot ! 1 1 NotExpr
opLen len 1 1 LenExpr
opItob itob 1 1 ItobExpr
opBtoi btoi 1 1 BtoiExpr
opModulo % 1 1 ModExpr
opBitOr | 1 1 BitOrExpr
opBitAnd & 1 1 BitAndExpr
opBitXor ^ 1 1 BitXorExpr
opBitNot ~ 1 1 BitNotExpr
opMulw mulw 1 1 MulwExpr
opAddw addw 2 2 AddwExpr
opDivModw divmodw 4 4 DivModwExpr
opIntConstBlock intcblock 1 1 -
opIntConstLoad intc 1 1 -
opIntConst0 intc_0 1 1 Intc0Expr
opIntConst1 intc_1 1 1 Intc1Expr
opIntConst2 intc_2 1 1 Intc2Expr
opIntConst3 intc_3 1 1 Intc3Expr
opByteConstBlock bytecblock 1 1 -
opByteConstLoad bytec 1 1 -
opByteConst0 bytec_0 1 1 Bytec0Expr
opByteConst1 bytec_1 1 1 Bytec1Expr
opByteConst2 bytec_2 1 1 Bytec2Expr
opByteConst3 bytec_3 1 1 Bytec3Expr
opArg arg 0 1 -
opArg0 arg_0 0 1 Arg0Expr
opArg1 arg_1 0 1 Arg1Expr
opArg2 arg_2 0 1 Arg2Expr
opArg3 arg_3 0 1 Arg3Expr
opTxn txn 1 1 -
opGlobal global 1 1 -
opGtxn gtxn 1 1 -
opLoad load 1 1 -
opStore store 1 1 -
opTxna txna 2 2 -
opGtxna gtxna 2 2 -
opGtxns gtxns 3 3 -
opGtxnsa gtxnsa 3 3 -
opGload gload 4 0 -
opGloads gloads 4 0 -
opGaid gaid 4 0 -
opGaids gaids 4 0 GaidsExpr
opLoads loads 5 5 LoadsExpr
opStores stores 5 5 StoresExpr
opBnz bnz 1 1 -
opBz bz 2 2 -
opB b 2 2 -
opReturn return 2 2 ReturnExpr
opAssert assert 3 3 AssertExpr
opBury bury 8 8 -
opPopN popn 8 8 -
opDupN dupn 8 8 -
opPop pop 1 1 PopExpr
opDup dup 1 1 DupExpr
opDup2 dup2 2 2 Dup2Expr
opDig dig 3 3 -
opSwap swap 3 3 SwapExpr
opSelect select 3 3 SelectExpr
opCover cover 5 5 -
opUncover uncover 5 5 -
opConcat concat 2 2 ConcatExpr
opSubstring substring 2 2 -
opSubstring3 substring3 2 2 Substring3Expr
opGetBit getbit 3 3 GetBitExpr
opSetBit setbit 3 3 SetBitExpr
opGetByte getbyte 3 3 GetByteExpr
opSetByte setbyte 3 3 SetByteExpr
opExtract extract 5 5 -
opExtract3 extract3 5 5 Extract3Expr
opExtract16Bits extract_uint16 5 5 ExtractUint16Expr
opExtract32Bits extract_uint32 5 5 ExtractUint32Expr
opExtract64Bits extract_uint64 5 5 Extract64BitsExpr
opReplace2 replace2 7 7 -
opReplace3 replace3 7 7 Replace3Expr
opBase64Decode base64_decode 7 7 -
opJSONRef json_ref 7 7 -
opBalance balance 2 0 BalanceExpr
opAppOptedIn app_opted_in 2 0 AppOptedInExpr
opAppLocalGet app_local_get 2 0 AppLocalGetExpr
opAppLocalGetEx app_local_get_ex 2 0 AppLocalGetExExpr
opAppGlobalGet app_global_get 2 0 AppGlobalGetExpr
opAppGlobalGetEx app_global_get_ex 2 0 AppGlobalGetExExpr
opAppLocalPut app_local_put 2 0 AppLocalPutExpr
opAppGlobalPut app_global_put 2 0 AppGlobalPutExpr
opAppLocalDel app_local_del 2 0 AppLocalDelExpr
opAppGlobalDel app_global_del 2 0 AppGlobalDelExpr
opAssetHoldingGet asset_holding_get 2 0 -
opAssetParamsGet asset_params_get 2 0 -
opAppParamsGet app_params_get 5 0 -
opAcctParamsGet acct_params_get 6 0 -
opMinBalance min_balance 3 0 MinBalanceExpr
opPushBytes pushbytes 3 3 -
opPushInt pushint 3 3 -
opPushBytess pushbytess 8 8 -
opPushInts pushints 8 8 -
opEd25519VerifyBare ed25519verify_bare 7 7 Ed25519VerifyBareExpr
opCallSub callsub 4 4 -
opRetSub retsub 4 4 RetSubExpr
opProto proto 8 8 -
opFrameDig frame_dig 8 8 -
opFrameBury frame_bury 8 8 -
opSwitch switch 8 8 -
opMatch match 8 8 -
opShiftLeft shl 4 4 ShlExpr
opShiftRight shr 4 4 ShrExpr
opSqrt sqrt 4 4 SqrtExpr
opBitLen bitlen 4 4 BitLenExpr
opExp exp 4 4 ExpExpr
opExpw expw 4 4 ExpwExpr
opBytesSqrt bsqrt 6 6 BsqrtExpr
opDivw divw 6 6 DivwExpr
opSHA3_256 sha3_256 7 7 Sha3256Expr
opEcAdd ec_add 9 9 -
opEcScalarMul ec_scalar_mul 9 9 -
opEcPairingCheck ec_pairing_check 9 9 -
opEcMultiExp ec_multi_exp 9 9 -
opEcSubgroupCheck ec_subgroup_check 9 9 -
opEcMapTo ec_map_to 9 9 -
opBytesPlus b+ 4 4 BplusExpr
opBytesMinus b- 4 4 BminusExpr
opBytesDiv b/ 4 4 BdivExpr
opBytesMul b* 4 4 BmulExpr
opBytesLt b< 4 4 BltExpr
opBytesGt b> 4 4 BGtExpr
opBytesLe b<= 4 4 BytesLeExpr
opBytesGe b>= 4 4 BytesGeExpr
opBytesEq b== 4 4 BytesEqExpr
opBytesNeq b!= 4 4 BytesNeqExpr
opBytesModulo b% 4 4 BytesModuloExpr
opBytesBitOr b| 4 4 BytesBitOrExpr
opBytesBitAnd b& 4 4 BytesBitAndExpr
opBytesBitXor b^ 4 4 BytesBitXorExpr
opBytesBitNot b~ 4 4 BytesBitNotExpr
opBytesZero bzero 4 4 BytesZeroExpr
opLog log 5 0 LogExpr
opTxBegin itxn_begin 5 0 ItxnBeginExpr
opItxnField itxn_field 5 0 -
opItxnSubmit itxn_submit 5 0 ItxnSubmitExpr
opItxn itxn 5 0 -
opItxna itxna 5 0 -
opItxnNext itxn_next 6 0 ItxnNextExpr
opGitxn gitxn 6 0 -
opGitxna gitxna 6 0 -
opBoxCreate box_create 8 0 BoxCreateExpr
opBoxExtract box_extract 8 0 BoxExtractExpr
opBoxReplace box_replace 8 0 BoxReplaceExpr
opBoxDel box_del 8 0 BoxDelExpr
opBoxLen box_len 8 0 BoxLenExpr
opBoxGet box_get 8 0 BoxGetExpr
opBoxPut box_put 8 0 BoxPutExpr
opTxnas txnas 5 5 -
opGtxnas gtxnas 5 5 -
opGtxnsas gtxnsas 5 5 -
opArgs args 0 5 ArgsExpr
opGloadss gloadss 6 0 GloadssExpr
opItxnas itxnas 6 0 -
opGitxnas gitxnas 6 0 -
opVrfVerify vrf_verify 7 7 -
opBlock block 7 7 -
'''
o='''# generated by tools/mkparsevc.py
def D(c) = as(c, *docContext)
def ver(c) = old(P(c).version)
def nargs(c) = old(len(P(c).args.ts) - P(c).args.i)
def arg(c, k) = old(P(c).args.ts[P(c).args.i + k].v)
def argTok(c, k) = old(P(c).args.ts[P(c).args.i + k])
def newop(c) = P(c).ops[old(len(P(c).ops))]
def refsSame(c) = len(P(c).refs) == old(len(P(c).refs)) && forall(k, 0, old(len(P(c).refs)), P(c).refs[k] == old(P(c).refs[k]))
def refsPlus(c) = len(P(c).refs) == old(len(P(c).refs)) + 1 && forall(k, 0, old(len(P(c).refs)), P(c).refs[k] == old(P(c).refs[k])) && P(c).refs[old(len(P(c).refs))] == argTok(c, 0)
def verSame(c) = P(c).version == old(P(c).version) && P(c).mode == old(P(c).mode)

func teal.(*parserContext).checkSurplus(c)
  props C07
  requires pcOK(c)
  ensures reported: len(c.diag) == old(len(c.diag)) + ite(old(c.args.i < len(c.args.ts)), 1, 0)
  ensures prefix: forall(k, 0, old(len(c.diag)), c.diag[k] == old(c.diag[k]))
  ensures where: imp(old(c.args.i < len(c.args.ts)), onLine(c.diag[old(len(c.diag))], c) && as(c.diag[old(len(c.diag))], parseError).b == old(c.args.ts[c.args.i].b) && as(c.diag[old(len(c.diag))], parseError).e == old(c.args.ts[c.args.i].e))
  ensures ctx: pcOK(c) && opsKept(c)
  modifies c.diag, c.args.i, elems(c.diag), newelems(Diagnostic)
  flags inline
'''
def acc(im,off=0):
    return ' && '.join([K[k][0]%('arg(c, %d)'%(i+off)) for i,(f,k) in enumerate(im) if K[k][0]!='true'] or ['true'])
def val(ty,im):
    e='as(newop(c), *%s)'%ty
    p=['is(newop(c), *%s)'%ty,e+' != nil']
    for i,(f,k) in enumerate(im): p.append('%s.%s == %s'%(e,f,K[k][1]%('arg(c, %d)'%i)))
    return ' && '.join(p)
def con(fn,okc,inst,used,refs,props):
    return f'''
func teal.{fn}'imm(c)
  props {props}
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: {okc}
  ensures instr: {inst}
  ensures used: {used}
  ensures refs: {refs}
  ensures state: verSame(c)
  panics rejected: !({okc})
  panics refs: refsSame(c)
  panics state: verSame(c)
'''
for l in T.split('\n'):
    w=l.split()
    if not w: continue
    im=[tuple(x.split(':')) for x in w[2:]]
    n=len(im)
    lab=any(k=='label' for f,k in im)
    props='C07 C16'
    if any(k not in('u8','i8','u64','const','label') for f,k in im): props+=' C06'
    if lab: props+=' C08'
    o+=con(w[0],'nargs(c) >= %d && %s'%(n,acc(im)),val(w[1],im),'P(c).args.i == old(P(c).args.i) + %d'%n,'refsPlus(c)' if lab else 'refsSame(c)',props)
for fn,(a,ta,b,tb) in ALT.items():
    na,nb=len(a),len(b)
    okc='%s%s && imp(nargs(c) > %d, %snargs(c) >= %d && %s)'%('nargs(c) >= %d && '%na if na else '',acc(a),na,'',nb,acc(b[na:],na))
    inst='ite(nargs(c) > %d, %s, %s)'%(na,val(tb,b),val(ta,a))
    used='ite(nargs(c) > %d, P(c).args.i == old(P(c).args.i) + %d, P(c).args.i >= len(P(c).args.ts))'%(na,nb)
    o+=con(fn,okc,inst,used,'refsSame(c)','C07 C16'+(' C06' if na else ''))
for l in OPS.split('\n'):
    w=l.split()
    if not w: continue
    fn,name,app,sig,ty=w
    o+=f'''
func teal.{fn}'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == {app}
  ensures sig: D(c).sigVersion == {sig}
'''
    if ty!='-':
        o+=con(fn,'true','is(newop(c), *%s) && as(newop(c), *%s) != nil'%(ty,ty),'P(c).args.i == old(P(c).args.i)','refsSame(c)','C07 C16').replace("  panics rejected: !(true)","  panics rejected: false")
open('contracts/c07_imms.vc','w').write(o)
