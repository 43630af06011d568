# generated by tools/mkparsevc.py
def D(c) = as(c, *docContext)
def ver(c) = old(P(c).version)
def nargs(c) = old(len(P(c).args.ts) - P(c).args.i)
def arg(c, k) = old(P(c).args.ts[P(c).args.i + k].v)
def argTok(c, k) = old(P(c).args.ts[P(c).args.i + k])
def newop(c) = P(c).ops[old(len(P(c).ops))]
def refsSame(c) = len(P(c).refs) == old(len(P(c).refs)) && forall(k, 0, old(len(P(c).refs)), P(c).refs[k] == old(P(c).refs[k]))
def refsPlus(c) = len(P(c).refs) == old(len(P(c).refs)) + 1 && forall(k, 0, old(len(P(c).refs)), P(c).refs[k] == old(P(c).refs[k])) && P(c).refs[old(len(P(c).refs))] == argTok(c, 0)
def verSame(c) = P(c).version == old(P(c).version) && P(c).mode == old(P(c).mode)

func teal.(*parserContext).checkSurplus(c)
  props C07
  requires pcOK(c)
  ensures reported: len(c.diag) == old(len(c.diag)) + ite(old(c.args.i < len(c.args.ts)), 1, 0)
  ensures prefix: forall(k, 0, old(len(c.diag)), c.diag[k] == old(c.diag[k]))
  ensures where: imp(old(c.args.i < len(c.args.ts)), onLine(c.diag[old(len(c.diag))], c) && as(c.diag[old(len(c.diag))], parseError).b == old(c.args.ts[c.args.i].b) && as(c.diag[old(len(c.diag))], parseError).e == old(c.args.ts[c.args.i].e))
  ensures ctx: pcOK(c) && opsKept(c)
  modifies c.diag, c.args.i, elems(c.diag), newelems(Diagnostic)
  flags inline

func teal.opInt'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okC(arg(c, 0))
  ensures instr: is(newop(c), *IntExpr) && as(newop(c), *IntExpr) != nil && as(newop(c), *IntExpr).Value == cval(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okC(arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opEcdsaVerify'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okEcdsaCurveIndex(ver(c), arg(c, 0))
  ensures instr: is(newop(c), *EcdsaVerifyExpr) && as(newop(c), *EcdsaVerifyExpr) != nil && as(newop(c), *EcdsaVerifyExpr).Index == valEcdsaCurveIndex(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okEcdsaCurveIndex(ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opEcdsaPkDecompress'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okEcdsaCurveIndex(ver(c), arg(c, 0))
  ensures instr: is(newop(c), *EcdsaPkDecompressExpr) && as(newop(c), *EcdsaPkDecompressExpr) != nil && as(newop(c), *EcdsaPkDecompressExpr).Index == valEcdsaCurveIndex(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okEcdsaCurveIndex(ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opEcdsaPkRecover'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okEcdsaCurveIndex(ver(c), arg(c, 0))
  ensures instr: is(newop(c), *EcdsaPkRecoverExpr) && as(newop(c), *EcdsaPkRecoverExpr) != nil && as(newop(c), *EcdsaPkRecoverExpr).Index == valEcdsaCurveIndex(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okEcdsaCurveIndex(ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opIntConstLoad'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okU8(arg(c, 0))
  ensures instr: is(newop(c), *IntcExpr) && as(newop(c), *IntcExpr) != nil && as(newop(c), *IntcExpr).Index == u8(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okU8(arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opByteConstLoad'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okU8(arg(c, 0))
  ensures instr: is(newop(c), *BytecExpr) && as(newop(c), *BytecExpr) != nil && as(newop(c), *BytecExpr).Index == u8(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okU8(arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opArg'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okU8(arg(c, 0))
  ensures instr: is(newop(c), *ArgExpr) && as(newop(c), *ArgExpr) != nil && as(newop(c), *ArgExpr).Index == u8(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okU8(arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opGlobal'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okGlobalField(ver(c), arg(c, 0))
  ensures instr: is(newop(c), *GlobalExpr) && as(newop(c), *GlobalExpr) != nil && as(newop(c), *GlobalExpr).Field == valGlobalField(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okGlobalField(ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opLoad'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okU8(arg(c, 0))
  ensures instr: is(newop(c), *LoadExpr) && as(newop(c), *LoadExpr) != nil && as(newop(c), *LoadExpr).Index == u8(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okU8(arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opStore'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okU8(arg(c, 0))
  ensures instr: is(newop(c), *StoreExpr) && as(newop(c), *StoreExpr) != nil && as(newop(c), *StoreExpr).Index == u8(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okU8(arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opTxna'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 2 && okTxn(1, ver(c), arg(c, 0)) && okU8(arg(c, 1))
  ensures instr: is(newop(c), *TxnaExpr) && as(newop(c), *TxnaExpr) != nil && as(newop(c), *TxnaExpr).Field == txnVal(arg(c, 0)) && as(newop(c), *TxnaExpr).Index == u8(arg(c, 1))
  ensures used: P(c).args.i == old(P(c).args.i) + 2
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 2 && okTxn(1, ver(c), arg(c, 0)) && okU8(arg(c, 1)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opGtxna'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 3 && okU8(arg(c, 0)) && okTxn(1, ver(c), arg(c, 1)) && okU8(arg(c, 2))
  ensures instr: is(newop(c), *GtxnaExpr) && as(newop(c), *GtxnaExpr) != nil && as(newop(c), *GtxnaExpr).Group == u8(arg(c, 0)) && as(newop(c), *GtxnaExpr).Field == txnVal(arg(c, 1)) && as(newop(c), *GtxnaExpr).Index == u8(arg(c, 2))
  ensures used: P(c).args.i == old(P(c).args.i) + 3
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 3 && okU8(arg(c, 0)) && okTxn(1, ver(c), arg(c, 1)) && okU8(arg(c, 2)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opGtxnsa'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 2 && okTxn(1, ver(c), arg(c, 0)) && okU8(arg(c, 1))
  ensures instr: is(newop(c), *GtxnsaExpr) && as(newop(c), *GtxnsaExpr) != nil && as(newop(c), *GtxnsaExpr).Field == txnVal(arg(c, 0)) && as(newop(c), *GtxnsaExpr).Index == u8(arg(c, 1))
  ensures used: P(c).args.i == old(P(c).args.i) + 2
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 2 && okTxn(1, ver(c), arg(c, 0)) && okU8(arg(c, 1)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opGload'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 2 && okU8(arg(c, 0)) && okU8(arg(c, 1))
  ensures instr: is(newop(c), *GloadExpr) && as(newop(c), *GloadExpr) != nil && as(newop(c), *GloadExpr).Group == u8(arg(c, 0)) && as(newop(c), *GloadExpr).Index == u8(arg(c, 1))
  ensures used: P(c).args.i == old(P(c).args.i) + 2
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 2 && okU8(arg(c, 0)) && okU8(arg(c, 1)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opGloads'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okU8(arg(c, 0))
  ensures instr: is(newop(c), *GloadsExpr) && as(newop(c), *GloadsExpr) != nil && as(newop(c), *GloadsExpr).Index == u8(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okU8(arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opGaid'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okU8(arg(c, 0))
  ensures instr: is(newop(c), *GaidExpr) && as(newop(c), *GaidExpr) != nil && as(newop(c), *GaidExpr).Group == u8(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okU8(arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBnz'imm(c)
  props C07 C16 C08
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && true
  ensures instr: is(newop(c), *BnzExpr) && as(newop(c), *BnzExpr) != nil && as(newop(c), *BnzExpr).Label.Name == arg(c, 0)
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsPlus(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && true)
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBz'imm(c)
  props C07 C16 C08
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && true
  ensures instr: is(newop(c), *BzExpr) && as(newop(c), *BzExpr) != nil && as(newop(c), *BzExpr).Label.Name == arg(c, 0)
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsPlus(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && true)
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opB'imm(c)
  props C07 C16 C08
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && true
  ensures instr: is(newop(c), *BExpr) && as(newop(c), *BExpr) != nil && as(newop(c), *BExpr).Label.Name == arg(c, 0)
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsPlus(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && true)
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBury'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okU8(arg(c, 0))
  ensures instr: is(newop(c), *BuryExpr) && as(newop(c), *BuryExpr) != nil && as(newop(c), *BuryExpr).Depth == u8(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okU8(arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opPopN'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okU8(arg(c, 0))
  ensures instr: is(newop(c), *PopNExpr) && as(newop(c), *PopNExpr) != nil && as(newop(c), *PopNExpr).Depth == u8(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okU8(arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opDupN'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okU8(arg(c, 0))
  ensures instr: is(newop(c), *DupNExpr) && as(newop(c), *DupNExpr) != nil && as(newop(c), *DupNExpr).Count == u8(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okU8(arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opDig'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okU8(arg(c, 0))
  ensures instr: is(newop(c), *DigExpr) && as(newop(c), *DigExpr) != nil && as(newop(c), *DigExpr).Index == u8(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okU8(arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opCover'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okU8(arg(c, 0))
  ensures instr: is(newop(c), *CoverExpr) && as(newop(c), *CoverExpr) != nil && as(newop(c), *CoverExpr).Depth == u8(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okU8(arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opUncover'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okU8(arg(c, 0))
  ensures instr: is(newop(c), *UncoverExpr) && as(newop(c), *UncoverExpr) != nil && as(newop(c), *UncoverExpr).Depth == u8(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okU8(arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opSubstring'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 2 && okU8(arg(c, 0)) && okU8(arg(c, 1))
  ensures instr: is(newop(c), *SubstringExpr) && as(newop(c), *SubstringExpr) != nil && as(newop(c), *SubstringExpr).Start == u8(arg(c, 0)) && as(newop(c), *SubstringExpr).End == u8(arg(c, 1))
  ensures used: P(c).args.i == old(P(c).args.i) + 2
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 2 && okU8(arg(c, 0)) && okU8(arg(c, 1)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opReplace2'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okU8(arg(c, 0))
  ensures instr: is(newop(c), *Replace2Expr) && as(newop(c), *Replace2Expr) != nil && as(newop(c), *Replace2Expr).Start == u8(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okU8(arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBase64Decode'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okBase64EncodingField(ver(c), arg(c, 0))
  ensures instr: is(newop(c), *Base64DecodeExpr) && as(newop(c), *Base64DecodeExpr) != nil && as(newop(c), *Base64DecodeExpr).Index == wrap8(valBase64EncodingField(arg(c, 0)))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okBase64EncodingField(ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opJSONRef'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okJsonRefField(ver(c), arg(c, 0))
  ensures instr: is(newop(c), *JsonRefExpr) && as(newop(c), *JsonRefExpr) != nil && as(newop(c), *JsonRefExpr).Index == wrap8(valJsonRefField(arg(c, 0)))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okJsonRefField(ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opAssetHoldingGet'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okAssetHoldingField(ver(c), arg(c, 0))
  ensures instr: is(newop(c), *AssetHoldingGetExpr) && as(newop(c), *AssetHoldingGetExpr) != nil && as(newop(c), *AssetHoldingGetExpr).Field == valAssetHoldingField(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okAssetHoldingField(ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opAssetParamsGet'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okAssetParamsField(ver(c), arg(c, 0))
  ensures instr: is(newop(c), *AssetParamsGetExpr) && as(newop(c), *AssetParamsGetExpr) != nil && as(newop(c), *AssetParamsGetExpr).Field == valAssetParamsField(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okAssetParamsField(ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opAppParamsGet'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okAppParamsField(ver(c), arg(c, 0))
  ensures instr: is(newop(c), *AppParamsGetExpr) && as(newop(c), *AppParamsGetExpr) != nil && as(newop(c), *AppParamsGetExpr).Field == valAppParamsField(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okAppParamsField(ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opAcctParamsGet'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okAcctParams(ver(c), arg(c, 0))
  ensures instr: is(newop(c), *AcctParamsGetExpr) && as(newop(c), *AcctParamsGetExpr) != nil && as(newop(c), *AcctParamsGetExpr).Field == valAcctParams(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okAcctParams(ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opPushInt'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okU64(arg(c, 0))
  ensures instr: is(newop(c), *PushIntExpr) && as(newop(c), *PushIntExpr) != nil && as(newop(c), *PushIntExpr).Value == u64(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okU64(arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opCallSub'imm(c)
  props C07 C16 C08
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && true
  ensures instr: is(newop(c), *CallSubExpr) && as(newop(c), *CallSubExpr) != nil && as(newop(c), *CallSubExpr).Label.Name == arg(c, 0)
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsPlus(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && true)
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opProto'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 2 && okU8(arg(c, 0)) && okU8(arg(c, 1))
  ensures instr: is(newop(c), *ProtoExpr) && as(newop(c), *ProtoExpr) != nil && as(newop(c), *ProtoExpr).Args == u8(arg(c, 0)) && as(newop(c), *ProtoExpr).Results == u8(arg(c, 1))
  ensures used: P(c).args.i == old(P(c).args.i) + 2
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 2 && okU8(arg(c, 0)) && okU8(arg(c, 1)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opFrameDig'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okI8(arg(c, 0))
  ensures instr: is(newop(c), *FrameDigExpr) && as(newop(c), *FrameDigExpr) != nil && as(newop(c), *FrameDigExpr).Index == i8(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okI8(arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opFrameBury'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okI8(arg(c, 0))
  ensures instr: is(newop(c), *FrameBuryExpr) && as(newop(c), *FrameBuryExpr) != nil && as(newop(c), *FrameBuryExpr).Index == i8(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okI8(arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opEcAdd'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okEcGroupField(ver(c), arg(c, 0))
  ensures instr: is(newop(c), *EcAddExpr) && as(newop(c), *EcAddExpr) != nil && as(newop(c), *EcAddExpr).Group == valEcGroupField(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okEcGroupField(ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opEcScalarMul'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okEcGroupField(ver(c), arg(c, 0))
  ensures instr: is(newop(c), *EcScalarMul) && as(newop(c), *EcScalarMul) != nil && as(newop(c), *EcScalarMul).Group == valEcGroupField(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okEcGroupField(ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opEcPairingCheck'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okEcGroupField(ver(c), arg(c, 0))
  ensures instr: is(newop(c), *EcPairingCheckExpr) && as(newop(c), *EcPairingCheckExpr) != nil && as(newop(c), *EcPairingCheckExpr).Group == valEcGroupField(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okEcGroupField(ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opEcMultiExp'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okEcGroupField(ver(c), arg(c, 0))
  ensures instr: is(newop(c), *EcMultiExpExpr) && as(newop(c), *EcMultiExpExpr) != nil && as(newop(c), *EcMultiExpExpr).Group == valEcGroupField(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okEcGroupField(ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opEcSubgroupCheck'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okEcGroupField(ver(c), arg(c, 0))
  ensures instr: is(newop(c), *EcSubgroupCheckExpr) && as(newop(c), *EcSubgroupCheckExpr) != nil && as(newop(c), *EcSubgroupCheckExpr).Group == valEcGroupField(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okEcGroupField(ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opEcMapTo'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okEcGroupField(ver(c), arg(c, 0))
  ensures instr: is(newop(c), *EcMapToExpr) && as(newop(c), *EcMapToExpr) != nil && as(newop(c), *EcMapToExpr).Group == valEcGroupField(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okEcGroupField(ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opItxnField'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okTxn(2, ver(c), arg(c, 0))
  ensures instr: is(newop(c), *ItxnFieldExpr) && as(newop(c), *ItxnFieldExpr) != nil && as(newop(c), *ItxnFieldExpr).Field == txnVal(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okTxn(2, ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opItxn'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okTxn(0, ver(c), arg(c, 0))
  ensures instr: is(newop(c), *ItxnExpr) && as(newop(c), *ItxnExpr) != nil && as(newop(c), *ItxnExpr).Field == txnVal(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okTxn(0, ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opItxna'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 2 && okTxn(1, ver(c), arg(c, 0)) && okU8(arg(c, 1))
  ensures instr: is(newop(c), *ItxnaExpr) && as(newop(c), *ItxnaExpr) != nil && as(newop(c), *ItxnaExpr).Field == txnVal(arg(c, 0)) && as(newop(c), *ItxnaExpr).Index == u8(arg(c, 1))
  ensures used: P(c).args.i == old(P(c).args.i) + 2
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 2 && okTxn(1, ver(c), arg(c, 0)) && okU8(arg(c, 1)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opGitxn'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 2 && okU8(arg(c, 0)) && okTxn(0, ver(c), arg(c, 1))
  ensures instr: is(newop(c), *GitxnExpr) && as(newop(c), *GitxnExpr) != nil && as(newop(c), *GitxnExpr).Index == u8(arg(c, 0)) && as(newop(c), *GitxnExpr).Field == txnVal(arg(c, 1))
  ensures used: P(c).args.i == old(P(c).args.i) + 2
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 2 && okU8(arg(c, 0)) && okTxn(0, ver(c), arg(c, 1)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opGitxna'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 3 && okU8(arg(c, 0)) && okTxn(1, ver(c), arg(c, 1)) && okU8(arg(c, 2))
  ensures instr: is(newop(c), *GitxnaExpr) && as(newop(c), *GitxnaExpr) != nil && as(newop(c), *GitxnaExpr).Group == u8(arg(c, 0)) && as(newop(c), *GitxnaExpr).Field == txnVal(arg(c, 1)) && as(newop(c), *GitxnaExpr).Index == u8(arg(c, 2))
  ensures used: P(c).args.i == old(P(c).args.i) + 3
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 3 && okU8(arg(c, 0)) && okTxn(1, ver(c), arg(c, 1)) && okU8(arg(c, 2)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opTxnas'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okTxn(1, ver(c), arg(c, 0))
  ensures instr: is(newop(c), *TxnasExpr) && as(newop(c), *TxnasExpr) != nil && as(newop(c), *TxnasExpr).Field == txnVal(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okTxn(1, ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opGtxnas'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 2 && okU8(arg(c, 0)) && okTxn(1, ver(c), arg(c, 1))
  ensures instr: is(newop(c), *GtxnasExpr) && as(newop(c), *GtxnasExpr) != nil && as(newop(c), *GtxnasExpr).Index == u8(arg(c, 0)) && as(newop(c), *GtxnasExpr).Field == txnVal(arg(c, 1))
  ensures used: P(c).args.i == old(P(c).args.i) + 2
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 2 && okU8(arg(c, 0)) && okTxn(1, ver(c), arg(c, 1)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opGtxnsas'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okTxn(1, ver(c), arg(c, 0))
  ensures instr: is(newop(c), *GtxnsasExpr) && as(newop(c), *GtxnsasExpr) != nil && as(newop(c), *GtxnsasExpr).Field == txnVal(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okTxn(1, ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opItxnas'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okTxn(1, ver(c), arg(c, 0))
  ensures instr: is(newop(c), *ItxnasExpr) && as(newop(c), *ItxnasExpr) != nil && as(newop(c), *ItxnasExpr).Field == txnVal(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okTxn(1, ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opGitxnas'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 2 && okU8(arg(c, 0)) && okTxn(1, ver(c), arg(c, 1))
  ensures instr: is(newop(c), *GitxnasExpr) && as(newop(c), *GitxnasExpr) != nil && as(newop(c), *GitxnasExpr).Index == u8(arg(c, 0)) && as(newop(c), *GitxnasExpr).Field == txnVal(arg(c, 1))
  ensures used: P(c).args.i == old(P(c).args.i) + 2
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 2 && okU8(arg(c, 0)) && okTxn(1, ver(c), arg(c, 1)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opVrfVerify'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okVrfVerifyField(ver(c), arg(c, 0))
  ensures instr: is(newop(c), *VrfVerifyExpr) && as(newop(c), *VrfVerifyExpr) != nil && as(newop(c), *VrfVerifyExpr).Field == valVrfVerifyField(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okVrfVerifyField(ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBlock'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okBlockField(ver(c), arg(c, 0))
  ensures instr: is(newop(c), *BlockExpr) && as(newop(c), *BlockExpr) != nil && as(newop(c), *BlockExpr).Field == valBlockField(arg(c, 0))
  ensures used: P(c).args.i == old(P(c).args.i) + 1
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okBlockField(ver(c), arg(c, 0)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opTxn'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okTxn(0, ver(c), arg(c, 0)) && imp(nargs(c) > 1, nargs(c) >= 2 && okU8(arg(c, 1)))
  ensures instr: ite(nargs(c) > 1, is(newop(c), *TxnaExpr) && as(newop(c), *TxnaExpr) != nil && as(newop(c), *TxnaExpr).Field == txnVal(arg(c, 0)) && as(newop(c), *TxnaExpr).Index == u8(arg(c, 1)), is(newop(c), *TxnExpr) && as(newop(c), *TxnExpr) != nil && as(newop(c), *TxnExpr).Field == txnVal(arg(c, 0)))
  ensures used: ite(nargs(c) > 1, P(c).args.i == old(P(c).args.i) + 2, P(c).args.i >= len(P(c).args.ts))
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okTxn(0, ver(c), arg(c, 0)) && imp(nargs(c) > 1, nargs(c) >= 2 && okU8(arg(c, 1))))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opGtxn'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 2 && okU8(arg(c, 0)) && okTxn(0, ver(c), arg(c, 1)) && imp(nargs(c) > 2, nargs(c) >= 3 && okU8(arg(c, 2)))
  ensures instr: ite(nargs(c) > 2, is(newop(c), *GtxnaExpr) && as(newop(c), *GtxnaExpr) != nil && as(newop(c), *GtxnaExpr).Group == u8(arg(c, 0)) && as(newop(c), *GtxnaExpr).Field == txnVal(arg(c, 1)) && as(newop(c), *GtxnaExpr).Index == u8(arg(c, 2)), is(newop(c), *GtxnExpr) && as(newop(c), *GtxnExpr) != nil && as(newop(c), *GtxnExpr).Group == u8(arg(c, 0)) && as(newop(c), *GtxnExpr).Field == txnVal(arg(c, 1)))
  ensures used: ite(nargs(c) > 2, P(c).args.i == old(P(c).args.i) + 3, P(c).args.i >= len(P(c).args.ts))
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 2 && okU8(arg(c, 0)) && okTxn(0, ver(c), arg(c, 1)) && imp(nargs(c) > 2, nargs(c) >= 3 && okU8(arg(c, 2))))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opGtxns'imm(c)
  props C07 C16 C06
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && okTxn(0, ver(c), arg(c, 0)) && imp(nargs(c) > 1, nargs(c) >= 2 && okU8(arg(c, 1)))
  ensures instr: ite(nargs(c) > 1, is(newop(c), *GtxnsaExpr) && as(newop(c), *GtxnsaExpr) != nil && as(newop(c), *GtxnsaExpr).Field == txnVal(arg(c, 0)) && as(newop(c), *GtxnsaExpr).Index == u8(arg(c, 1)), is(newop(c), *GtxnsExpr) && as(newop(c), *GtxnsExpr) != nil && as(newop(c), *GtxnsExpr).Field == txnVal(arg(c, 0)))
  ensures used: ite(nargs(c) > 1, P(c).args.i == old(P(c).args.i) + 2, P(c).args.i >= len(P(c).args.ts))
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && okTxn(0, ver(c), arg(c, 0)) && imp(nargs(c) > 1, nargs(c) >= 2 && okU8(arg(c, 1))))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opReplace'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true && imp(nargs(c) > 0, nargs(c) >= 1 && okU8(arg(c, 0)))
  ensures instr: ite(nargs(c) > 0, is(newop(c), *Replace2Expr) && as(newop(c), *Replace2Expr) != nil && as(newop(c), *Replace2Expr).Start == u8(arg(c, 0)), is(newop(c), *Replace3Expr) && as(newop(c), *Replace3Expr) != nil)
  ensures used: ite(nargs(c) > 0, P(c).args.i == old(P(c).args.i) + 1, P(c).args.i >= len(P(c).args.ts))
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(true && imp(nargs(c) > 0, nargs(c) >= 1 && okU8(arg(c, 0))))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opExtract'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true && imp(nargs(c) > 0, nargs(c) >= 2 && okU8(arg(c, 0)) && okU8(arg(c, 1)))
  ensures instr: ite(nargs(c) > 0, is(newop(c), *ExtractExpr) && as(newop(c), *ExtractExpr) != nil && as(newop(c), *ExtractExpr).Start == u8(arg(c, 0)) && as(newop(c), *ExtractExpr).Length == u8(arg(c, 1)), is(newop(c), *Extract3Expr) && as(newop(c), *Extract3Expr) != nil)
  ensures used: ite(nargs(c) > 0, P(c).args.i == old(P(c).args.i) + 2, P(c).args.i >= len(P(c).args.ts))
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(true && imp(nargs(c) > 0, nargs(c) >= 2 && okU8(arg(c, 0)) && okU8(arg(c, 1))))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opReplace'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 7
  ensures sig: D(c).sigVersion == 7

func teal.opByte'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opInt'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opMethod'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opAddr'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opErr'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opErr'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *ErrExpr) && as(newop(c), *ErrExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opSHA256'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opSHA256'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Sha256Expr) && as(newop(c), *Sha256Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opKeccak256'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opKeccak256'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Keccak256Expr) && as(newop(c), *Keccak256Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opSHA512_256'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opSHA512_256'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Sha512256Expr) && as(newop(c), *Sha512256Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opEd25519Verify'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 1

func teal.opEd25519Verify'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *ED25519VerifyExpr) && as(newop(c), *ED25519VerifyExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opEcdsaVerify'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 5

func teal.opEcdsaPkDecompress'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 5

func teal.opEcdsaPkRecover'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 5

func teal.opPlus'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opPlus'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *PlusExpr) && as(newop(c), *PlusExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opMinus'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opMinus'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *MinusExpr) && as(newop(c), *MinusExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opDiv'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opDiv'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *DivExpr) && as(newop(c), *DivExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opMul'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opMul'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *MulExpr) && as(newop(c), *MulExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opLt'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opLt'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *LtExpr) && as(newop(c), *LtExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opGt'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opGt'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *GtExpr) && as(newop(c), *GtExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opLe'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opLe'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *LtEqExpr) && as(newop(c), *LtEqExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opGe'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opGe'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *GtEqExpr) && as(newop(c), *GtEqExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opAnd'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opAnd'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *AndExpr) && as(newop(c), *AndExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opOr'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opOr'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *OrExpr) && as(newop(c), *OrExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opEq'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opEq'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *EqExpr) && as(newop(c), *EqExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opNeq'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opNeq'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *NeqExpr) && as(newop(c), *NeqExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opNot'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opNot'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *NotExpr) && as(newop(c), *NotExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opLen'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opLen'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *LenExpr) && as(newop(c), *LenExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opItob'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opItob'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *ItobExpr) && as(newop(c), *ItobExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBtoi'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opBtoi'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BtoiExpr) && as(newop(c), *BtoiExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opModulo'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opModulo'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *ModExpr) && as(newop(c), *ModExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBitOr'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opBitOr'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BitOrExpr) && as(newop(c), *BitOrExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBitAnd'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opBitAnd'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BitAndExpr) && as(newop(c), *BitAndExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBitXor'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opBitXor'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BitXorExpr) && as(newop(c), *BitXorExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBitNot'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opBitNot'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BitNotExpr) && as(newop(c), *BitNotExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opMulw'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opMulw'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *MulwExpr) && as(newop(c), *MulwExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opAddw'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 2

func teal.opAddw'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *AddwExpr) && as(newop(c), *AddwExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opDivModw'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opDivModw'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *DivModwExpr) && as(newop(c), *DivModwExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opIntConstBlock'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opIntConstLoad'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opIntConst0'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opIntConst0'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Intc0Expr) && as(newop(c), *Intc0Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opIntConst1'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opIntConst1'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Intc1Expr) && as(newop(c), *Intc1Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opIntConst2'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opIntConst2'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Intc2Expr) && as(newop(c), *Intc2Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opIntConst3'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opIntConst3'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Intc3Expr) && as(newop(c), *Intc3Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opByteConstBlock'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opByteConstLoad'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opByteConst0'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opByteConst0'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Bytec0Expr) && as(newop(c), *Bytec0Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opByteConst1'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opByteConst1'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Bytec1Expr) && as(newop(c), *Bytec1Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opByteConst2'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opByteConst2'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Bytec2Expr) && as(newop(c), *Bytec2Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opByteConst3'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opByteConst3'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Bytec3Expr) && as(newop(c), *Bytec3Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opArg'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 0
  ensures sig: D(c).sigVersion == 1

func teal.opArg0'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 0
  ensures sig: D(c).sigVersion == 1

func teal.opArg0'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Arg0Expr) && as(newop(c), *Arg0Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opArg1'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 0
  ensures sig: D(c).sigVersion == 1

func teal.opArg1'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Arg1Expr) && as(newop(c), *Arg1Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opArg2'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 0
  ensures sig: D(c).sigVersion == 1

func teal.opArg2'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Arg2Expr) && as(newop(c), *Arg2Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opArg3'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 0
  ensures sig: D(c).sigVersion == 1

func teal.opArg3'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Arg3Expr) && as(newop(c), *Arg3Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opTxn'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opGlobal'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opGtxn'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opLoad'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opStore'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opTxna'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 2

func teal.opGtxna'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 2

func teal.opGtxns'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 3
  ensures sig: D(c).sigVersion == 3

func teal.opGtxnsa'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 3
  ensures sig: D(c).sigVersion == 3

func teal.opGload'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 0

func teal.opGloads'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 0

func teal.opGaid'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 0

func teal.opGaids'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 0

func teal.opGaids'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *GaidsExpr) && as(newop(c), *GaidsExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opLoads'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 5

func teal.opLoads'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *LoadsExpr) && as(newop(c), *LoadsExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opStores'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 5

func teal.opStores'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *StoresExpr) && as(newop(c), *StoresExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBnz'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opBz'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 2

func teal.opB'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 2

func teal.opReturn'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 2

func teal.opReturn'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *ReturnExpr) && as(newop(c), *ReturnExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opAssert'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 3
  ensures sig: D(c).sigVersion == 3

func teal.opAssert'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *AssertExpr) && as(newop(c), *AssertExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBury'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 8
  ensures sig: D(c).sigVersion == 8

func teal.opPopN'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 8
  ensures sig: D(c).sigVersion == 8

func teal.opDupN'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 8
  ensures sig: D(c).sigVersion == 8

func teal.opPop'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opPop'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *PopExpr) && as(newop(c), *PopExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opDup'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 1
  ensures sig: D(c).sigVersion == 1

func teal.opDup'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *DupExpr) && as(newop(c), *DupExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opDup2'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 2

func teal.opDup2'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Dup2Expr) && as(newop(c), *Dup2Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opDig'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 3
  ensures sig: D(c).sigVersion == 3

func teal.opSwap'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 3
  ensures sig: D(c).sigVersion == 3

func teal.opSwap'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *SwapExpr) && as(newop(c), *SwapExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opSelect'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 3
  ensures sig: D(c).sigVersion == 3

func teal.opSelect'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *SelectExpr) && as(newop(c), *SelectExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opCover'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 5

func teal.opUncover'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 5

func teal.opConcat'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 2

func teal.opConcat'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *ConcatExpr) && as(newop(c), *ConcatExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opSubstring'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 2

func teal.opSubstring3'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 2

func teal.opSubstring3'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Substring3Expr) && as(newop(c), *Substring3Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opGetBit'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 3
  ensures sig: D(c).sigVersion == 3

func teal.opGetBit'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *GetBitExpr) && as(newop(c), *GetBitExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opSetBit'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 3
  ensures sig: D(c).sigVersion == 3

func teal.opSetBit'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *SetBitExpr) && as(newop(c), *SetBitExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opGetByte'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 3
  ensures sig: D(c).sigVersion == 3

func teal.opGetByte'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *GetByteExpr) && as(newop(c), *GetByteExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opSetByte'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 3
  ensures sig: D(c).sigVersion == 3

func teal.opSetByte'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *SetByteExpr) && as(newop(c), *SetByteExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opExtract'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 5

func teal.opExtract3'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 5

func teal.opExtract3'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Extract3Expr) && as(newop(c), *Extract3Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opExtract16Bits'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 5

func teal.opExtract16Bits'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *ExtractUint16Expr) && as(newop(c), *ExtractUint16Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opExtract32Bits'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 5

func teal.opExtract32Bits'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *ExtractUint32Expr) && as(newop(c), *ExtractUint32Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opExtract64Bits'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 5

func teal.opExtract64Bits'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Extract64BitsExpr) && as(newop(c), *Extract64BitsExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opReplace2'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 7
  ensures sig: D(c).sigVersion == 7

func teal.opReplace3'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 7
  ensures sig: D(c).sigVersion == 7

func teal.opReplace3'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Replace3Expr) && as(newop(c), *Replace3Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBase64Decode'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 7
  ensures sig: D(c).sigVersion == 7

func teal.opJSONRef'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 7
  ensures sig: D(c).sigVersion == 7

func teal.opBalance'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 0

func teal.opBalance'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BalanceExpr) && as(newop(c), *BalanceExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opAppOptedIn'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 0

func teal.opAppOptedIn'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *AppOptedInExpr) && as(newop(c), *AppOptedInExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opAppLocalGet'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 0

func teal.opAppLocalGet'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *AppLocalGetExpr) && as(newop(c), *AppLocalGetExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opAppLocalGetEx'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 0

func teal.opAppLocalGetEx'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *AppLocalGetExExpr) && as(newop(c), *AppLocalGetExExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opAppGlobalGet'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 0

func teal.opAppGlobalGet'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *AppGlobalGetExpr) && as(newop(c), *AppGlobalGetExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opAppGlobalGetEx'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 0

func teal.opAppGlobalGetEx'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *AppGlobalGetExExpr) && as(newop(c), *AppGlobalGetExExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opAppLocalPut'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 0

func teal.opAppLocalPut'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *AppLocalPutExpr) && as(newop(c), *AppLocalPutExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opAppGlobalPut'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 0

func teal.opAppGlobalPut'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *AppGlobalPutExpr) && as(newop(c), *AppGlobalPutExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opAppLocalDel'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 0

func teal.opAppLocalDel'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *AppLocalDelExpr) && as(newop(c), *AppLocalDelExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opAppGlobalDel'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 0

func teal.opAppGlobalDel'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *AppGlobalDelExpr) && as(newop(c), *AppGlobalDelExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opAssetHoldingGet'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 0

func teal.opAssetParamsGet'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 2
  ensures sig: D(c).sigVersion == 0

func teal.opAppParamsGet'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 0

func teal.opAcctParamsGet'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 6
  ensures sig: D(c).sigVersion == 0

func teal.opMinBalance'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 3
  ensures sig: D(c).sigVersion == 0

func teal.opMinBalance'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *MinBalanceExpr) && as(newop(c), *MinBalanceExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opPushBytes'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 3
  ensures sig: D(c).sigVersion == 3

func teal.opPushInt'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 3
  ensures sig: D(c).sigVersion == 3

func teal.opPushBytess'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 8
  ensures sig: D(c).sigVersion == 8

func teal.opPushInts'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 8
  ensures sig: D(c).sigVersion == 8

func teal.opEd25519VerifyBare'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 7
  ensures sig: D(c).sigVersion == 7

func teal.opEd25519VerifyBare'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Ed25519VerifyBareExpr) && as(newop(c), *Ed25519VerifyBareExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opCallSub'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opRetSub'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opRetSub'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *RetSubExpr) && as(newop(c), *RetSubExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opProto'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 8
  ensures sig: D(c).sigVersion == 8

func teal.opFrameDig'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 8
  ensures sig: D(c).sigVersion == 8

func teal.opFrameBury'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 8
  ensures sig: D(c).sigVersion == 8

func teal.opSwitch'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 8
  ensures sig: D(c).sigVersion == 8

func teal.opMatch'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 8
  ensures sig: D(c).sigVersion == 8

func teal.opShiftLeft'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opShiftLeft'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *ShlExpr) && as(newop(c), *ShlExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opShiftRight'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opShiftRight'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *ShrExpr) && as(newop(c), *ShrExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opSqrt'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opSqrt'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *SqrtExpr) && as(newop(c), *SqrtExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBitLen'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opBitLen'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BitLenExpr) && as(newop(c), *BitLenExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opExp'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opExp'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *ExpExpr) && as(newop(c), *ExpExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opExpw'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opExpw'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *ExpwExpr) && as(newop(c), *ExpwExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBytesSqrt'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 6
  ensures sig: D(c).sigVersion == 6

func teal.opBytesSqrt'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BsqrtExpr) && as(newop(c), *BsqrtExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opDivw'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 6
  ensures sig: D(c).sigVersion == 6

func teal.opDivw'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *DivwExpr) && as(newop(c), *DivwExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opSHA3_256'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 7
  ensures sig: D(c).sigVersion == 7

func teal.opSHA3_256'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *Sha3256Expr) && as(newop(c), *Sha3256Expr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opEcAdd'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 9
  ensures sig: D(c).sigVersion == 9

func teal.opEcScalarMul'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 9
  ensures sig: D(c).sigVersion == 9

func teal.opEcPairingCheck'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 9
  ensures sig: D(c).sigVersion == 9

func teal.opEcMultiExp'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 9
  ensures sig: D(c).sigVersion == 9

func teal.opEcSubgroupCheck'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 9
  ensures sig: D(c).sigVersion == 9

func teal.opEcMapTo'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 9
  ensures sig: D(c).sigVersion == 9

func teal.opBytesPlus'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opBytesPlus'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BplusExpr) && as(newop(c), *BplusExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBytesMinus'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opBytesMinus'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BminusExpr) && as(newop(c), *BminusExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBytesDiv'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opBytesDiv'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BdivExpr) && as(newop(c), *BdivExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBytesMul'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opBytesMul'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BmulExpr) && as(newop(c), *BmulExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBytesLt'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opBytesLt'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BltExpr) && as(newop(c), *BltExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBytesGt'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opBytesGt'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BGtExpr) && as(newop(c), *BGtExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBytesLe'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opBytesLe'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BytesLeExpr) && as(newop(c), *BytesLeExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBytesGe'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opBytesGe'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BytesGeExpr) && as(newop(c), *BytesGeExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBytesEq'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opBytesEq'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BytesEqExpr) && as(newop(c), *BytesEqExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBytesNeq'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opBytesNeq'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BytesNeqExpr) && as(newop(c), *BytesNeqExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBytesModulo'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opBytesModulo'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BytesModuloExpr) && as(newop(c), *BytesModuloExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBytesBitOr'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opBytesBitOr'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BytesBitOrExpr) && as(newop(c), *BytesBitOrExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBytesBitAnd'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opBytesBitAnd'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BytesBitAndExpr) && as(newop(c), *BytesBitAndExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBytesBitXor'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opBytesBitXor'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BytesBitXorExpr) && as(newop(c), *BytesBitXorExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBytesBitNot'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opBytesBitNot'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BytesBitNotExpr) && as(newop(c), *BytesBitNotExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBytesZero'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 4
  ensures sig: D(c).sigVersion == 4

func teal.opBytesZero'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BytesZeroExpr) && as(newop(c), *BytesZeroExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opLog'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 0

func teal.opLog'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *LogExpr) && as(newop(c), *LogExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opTxBegin'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 0

func teal.opTxBegin'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *ItxnBeginExpr) && as(newop(c), *ItxnBeginExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opItxnField'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 0

func teal.opItxnSubmit'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 0

func teal.opItxnSubmit'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *ItxnSubmitExpr) && as(newop(c), *ItxnSubmitExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opItxn'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 0

func teal.opItxna'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 0

func teal.opItxnNext'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 6
  ensures sig: D(c).sigVersion == 0

func teal.opItxnNext'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *ItxnNextExpr) && as(newop(c), *ItxnNextExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opGitxn'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 6
  ensures sig: D(c).sigVersion == 0

func teal.opGitxna'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 6
  ensures sig: D(c).sigVersion == 0

func teal.opBoxCreate'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 8
  ensures sig: D(c).sigVersion == 0

func teal.opBoxCreate'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BoxCreateExpr) && as(newop(c), *BoxCreateExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBoxExtract'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 8
  ensures sig: D(c).sigVersion == 0

func teal.opBoxExtract'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BoxExtractExpr) && as(newop(c), *BoxExtractExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBoxReplace'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 8
  ensures sig: D(c).sigVersion == 0

func teal.opBoxReplace'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BoxReplaceExpr) && as(newop(c), *BoxReplaceExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBoxDel'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 8
  ensures sig: D(c).sigVersion == 0

func teal.opBoxDel'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BoxDelExpr) && as(newop(c), *BoxDelExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBoxLen'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 8
  ensures sig: D(c).sigVersion == 0

func teal.opBoxLen'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BoxLenExpr) && as(newop(c), *BoxLenExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBoxGet'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 8
  ensures sig: D(c).sigVersion == 0

func teal.opBoxGet'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BoxGetExpr) && as(newop(c), *BoxGetExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opBoxPut'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 8
  ensures sig: D(c).sigVersion == 0

func teal.opBoxPut'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *BoxPutExpr) && as(newop(c), *BoxPutExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opTxnas'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 5

func teal.opGtxnas'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 5

func teal.opGtxnsas'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 5
  ensures sig: D(c).sigVersion == 5

func teal.opArgs'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 0
  ensures sig: D(c).sigVersion == 5

func teal.opArgs'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *ArgsExpr) && as(newop(c), *ArgsExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opGloadss'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 6
  ensures sig: D(c).sigVersion == 0

func teal.opGloadss'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: true
  ensures instr: is(newop(c), *GloadssExpr) && as(newop(c), *GloadssExpr) != nil
  ensures used: P(c).args.i == old(P(c).args.i)
  ensures refs: refsSame(c)
  ensures state: verSame(c)
  panics rejected: false
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opItxnas'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 6
  ensures sig: D(c).sigVersion == 0

func teal.opGitxnas'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 6
  ensures sig: D(c).sigVersion == 0

func teal.opVrfVerify'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 7
  ensures sig: D(c).sigVersion == 7

func teal.opBlock'version(c)
  props C06
  dyn c *docContext
  requires D(c) != nil && D(c).appVersion == 1 && D(c).sigVersion == 1
  ensures app: D(c).appVersion == 7
  ensures sig: D(c).sigVersion == 7
