# C07: the instructions with byte, list, label-list, address, signature and pragma immediates
def TS(c) = P(c).args.ts
def I0(c) = old(P(c).args.i)
func teal.opByte'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && bOK(arg(c, 0), nargs(c) >= 2, arg(c, 1))
  ensures instr: is(newop(c), *ByteExpr) && as(newop(c), *ByteExpr) != nil
  ensures value: bIs(as(newop(c), *ByteExpr).Value, arg(c, 0), arg(c, 1))
  ensures format: as(newop(c), *ByteExpr).Format == 0
  ensures used: P(c).args.i == I0(c) + 1 + bUsed(arg(c, 0))
  ensures refs0: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && bOK(arg(c, 0), nargs(c) >= 2, arg(c, 1)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opPushBytes'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && bOK(arg(c, 0), nargs(c) >= 2, arg(c, 1))
  ensures instr: is(newop(c), *PushBytesExpr) && as(newop(c), *PushBytesExpr) != nil
  ensures value: bIs(as(newop(c), *PushBytesExpr).Value, arg(c, 0), arg(c, 1))
  ensures format: as(newop(c), *PushBytesExpr).Format == 0
  ensures used: P(c).args.i == I0(c) + 1 + bUsed(arg(c, 0))
  ensures refs0: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && bOK(arg(c, 0), nargs(c) >= 2, arg(c, 1)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opByteConstBlock'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: bAll(TS(c), nargs(c))
  ensures instr: is(newop(c), *BytecBlockExpr) && as(newop(c), *BytecBlockExpr) != nil
  ensures count: imp(nargs(c) >= 0, bpos(TS(c), I0(c), len(as(newop(c), *BytecBlockExpr).Values)) == len(TS(c)))
  ensures values: forall(k, 0, len(as(newop(c), *BytecBlockExpr).Values), bAt(as(newop(c), *BytecBlockExpr).Values[k], TS(c), bpos(TS(c), I0(c), k)))
  ensures used: P(c).args.i >= len(TS(c))
  ensures refs0: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(bAll(TS(c), nargs(c)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opPushBytess'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: bAll(TS(c), nargs(c))
  ensures instr: is(newop(c), *PushBytessExpr) && as(newop(c), *PushBytessExpr) != nil
  ensures count: imp(nargs(c) >= 0, bpos(TS(c), I0(c), len(as(newop(c), *PushBytessExpr).Bytess)) == len(TS(c)))
  ensures values: forall(k, 0, len(as(newop(c), *PushBytessExpr).Bytess), bAt(as(newop(c), *PushBytessExpr).Bytess[k], TS(c), bpos(TS(c), I0(c), k)))
  ensures used: P(c).args.i >= len(TS(c))
  ensures refs0: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(bAll(TS(c), nargs(c)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opIntConstBlock'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: forall(k, I0(c), len(TS(c)), okU64(TS(c)[k].v))
  ensures instr: is(newop(c), *IntcBlockExpr) && as(newop(c), *IntcBlockExpr) != nil
  ensures count: imp(nargs(c) >= 0, len(as(newop(c), *IntcBlockExpr).Values) == nargs(c))
  ensures values: imp(nargs(c) >= 0, forall(k, 0, len(as(newop(c), *IntcBlockExpr).Values), as(newop(c), *IntcBlockExpr).Values[k] == u64(TS(c)[I0(c)+k].v)))
  ensures used: P(c).args.i >= len(TS(c))
  ensures refs0: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(forall(k, I0(c), len(TS(c)), okU64(TS(c)[k].v)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opPushInts'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: forall(k, I0(c), len(TS(c)), okU64(TS(c)[k].v))
  ensures instr: is(newop(c), *PushIntsExpr) && as(newop(c), *PushIntsExpr) != nil
  ensures count: imp(nargs(c) >= 0, len(as(newop(c), *PushIntsExpr).Ints) == nargs(c))
  ensures values: imp(nargs(c) >= 0, forall(k, 0, len(as(newop(c), *PushIntsExpr).Ints), as(newop(c), *PushIntsExpr).Ints[k] == u64(TS(c)[I0(c)+k].v)))
  ensures used: P(c).args.i >= len(TS(c))
  ensures refs0: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(forall(k, I0(c), len(TS(c)), okU64(TS(c)[k].v)))
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opSwitch'imm(c)
  props C07 C08 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures instr: is(newop(c), *SwitchExpr) && as(newop(c), *SwitchExpr) != nil
  ensures count: imp(nargs(c) >= 0, len(as(newop(c), *SwitchExpr).Targets) == nargs(c))
  ensures nonnil: imp(nargs(c) >= 0, forall(k, 0, len(as(newop(c), *SwitchExpr).Targets), as(newop(c), *SwitchExpr).Targets[k] != nil))
  ensures values: imp(nargs(c) >= 0, forall(k, 0, len(as(newop(c), *SwitchExpr).Targets), as(newop(c), *SwitchExpr).Targets[k].Name == TS(c)[I0(c)+k].v))
  ensures used: P(c).args.i >= len(TS(c))
  ensures refs0: imp(nargs(c) >= 0, len(P(c).refs) == old(len(P(c).refs)) + nargs(c))
  ensures refs1: forall(k, 0, old(len(P(c).refs)), P(c).refs[k] == old(P(c).refs[k]))
  ensures refs2: forall(k, old(len(P(c).refs)), len(P(c).refs), P(c).refs[k] == TS(c)[I0(c)+k-old(len(P(c).refs))])
  ensures state: verSame(c)
  invariant <names:[]string, r:[]*LabelExpr, i:idx> len(r) == i
  invariant <names:[]string, r:[]*LabelExpr> forall(k, 0, len(r), r[k] != nil && ref(r[k]) < alloc() && r[k].Name == names[k])

func teal.opMatch'imm(c)
  props C07 C08 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures instr: is(newop(c), *MatchExpr) && as(newop(c), *MatchExpr) != nil
  ensures count: imp(nargs(c) >= 0, len(as(newop(c), *MatchExpr).Targets) == nargs(c))
  ensures nonnil: imp(nargs(c) >= 0, forall(k, 0, len(as(newop(c), *MatchExpr).Targets), as(newop(c), *MatchExpr).Targets[k] != nil))
  ensures values: imp(nargs(c) >= 0, forall(k, 0, len(as(newop(c), *MatchExpr).Targets), as(newop(c), *MatchExpr).Targets[k].Name == TS(c)[I0(c)+k].v))
  ensures used: P(c).args.i >= len(TS(c))
  ensures refs0: imp(nargs(c) >= 0, len(P(c).refs) == old(len(P(c).refs)) + nargs(c))
  ensures refs1: forall(k, 0, old(len(P(c).refs)), P(c).refs[k] == old(P(c).refs[k]))
  ensures refs2: forall(k, old(len(P(c).refs)), len(P(c).refs), P(c).refs[k] == TS(c)[I0(c)+k-old(len(P(c).refs))])
  ensures state: verSame(c)
  invariant <names:[]string, r:[]*LabelExpr, i:idx> len(r) == i
  invariant <names:[]string, r:[]*LabelExpr> forall(k, 0, len(r), r[k] != nil && ref(r[k]) < alloc() && r[k].Name == names[k])

func teal.opAddr'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && ext("github.com/algorand/go-algorand-sdk/types.DecodeAddress#1", error, arg(c, 0)) == nil
  ensures instr: is(newop(c), *AddrExpr) && as(newop(c), *AddrExpr) != nil
  ensures value: as(newop(c), *AddrExpr).Address == arg(c, 0)
  ensures used: P(c).args.i == I0(c) + 1
  ensures refs0: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && ext("github.com/algorand/go-algorand-sdk/types.DecodeAddress#1", error, arg(c, 0)) == nil)
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opMethod'imm(c)
  props C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 1 && len(arg(c, 0)) >= 2 && arg(c, 0)[0] == '"' && arg(c, 0)[len(arg(c, 0))-1] == '"'
  ensures instr: is(newop(c), *MethodExpr) && as(newop(c), *MethodExpr) != nil
  ensures value: as(newop(c), *MethodExpr).Signature == arg(c, 0)[1:len(arg(c, 0))-1]
  ensures used: P(c).args.i == I0(c) + 1
  ensures refs0: refsSame(c)
  ensures state: verSame(c)
  panics rejected: !(nargs(c) >= 1 && len(arg(c, 0)) >= 2 && arg(c, 0)[0] == '"' && arg(c, 0)[len(arg(c, 0))-1] == '"')
  panics refs: refsSame(c)
  panics state: verSame(c)

func teal.opPragma'imm(c)
  props C06 C07 C16
  dyn c *parserContext
  requires pcOK(P(c))
  ensures accepted: nargs(c) >= 2 && arg(c, 0) == "version" && okU64(arg(c, 1)) && u64(arg(c, 1)) >= 1 && u64(arg(c, 1)) <= 255
  ensures instr: is(newop(c), *PragmaExpr) && as(newop(c), *PragmaExpr) != nil
  ensures value: as(newop(c), *PragmaExpr).Version == u64(arg(c, 1))
  ensures used: P(c).args.i == I0(c) + 2
  ensures refs0: refsSame(c)
  ensures state: P(c).version == u64(arg(c, 1)) && P(c).mode == old(P(c).mode)
  panics rejected: !(nargs(c) >= 2 && arg(c, 0) == "version" && okU64(arg(c, 1)) && u64(arg(c, 1)) >= 1 && u64(arg(c, 1)) <= 255)
  panics refs: refsSame(c)
  panics state: verSame(c)

