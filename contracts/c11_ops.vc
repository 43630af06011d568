# Generated by tools/mkvmvc.py from the reference tables of the oracle: the stack effect
# of every opcode with a fixed number of operands (types: 1 any, 2 integer, 3 bytes).

# !
func teal.(*NotExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# !=
func teal.(*NeqExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# %
func teal.(*ModExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# &
func teal.(*BitAndExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# &&
func teal.(*AndExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# *
func teal.(*MulExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# +
func teal.(*PlusExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# -
func teal.(*MinusExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# /
func teal.(*DivExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# <
func teal.(*LtExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# <=
func teal.(*LtEqExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# ==
func teal.(*EqExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# >
func teal.(*GtExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# >=
func teal.(*GtEqExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# ^
func teal.(*BitXorExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# acct_params_get
func teal.(*AcctParamsGetExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 2
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(acctParamsFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))-1].T)
  ensures result1: b.Stack.Items[old(len(b.Stack.Items))].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && 0 <= e.Field && e.Field < len(acctParamsFieldSpecs) && fieldOK(acctParamsFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# addr
func teal.(*AddrExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# addw
func teal.(*AddwExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 2
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures result1: b.Stack.Items[old(len(b.Stack.Items))-1].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# app_global_del
func teal.(*AppGlobalDelExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 0
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# app_global_get
func teal.(*AppGlobalGetExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: valT(b.Stack.Items[old(len(b.Stack.Items))-1].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# app_global_get_ex
func teal.(*AppGlobalGetExExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 2
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: valT(b.Stack.Items[old(len(b.Stack.Items))-2].T)
  ensures result1: b.Stack.Items[old(len(b.Stack.Items))-1].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# app_global_put
func teal.(*AppGlobalPutExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 0
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# app_local_del
func teal.(*AppLocalDelExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 0
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# app_local_get
func teal.(*AppLocalGetExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: valT(b.Stack.Items[old(len(b.Stack.Items))-2].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# app_local_get_ex
func teal.(*AppLocalGetExExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(3 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 3 + 2
  ensures below: forall(k, 0, old(len(b.Stack.Items))-3, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: valT(b.Stack.Items[old(len(b.Stack.Items))-3].T)
  ensures result1: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(3 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# app_local_put
func teal.(*AppLocalPutExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(3 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 3 + 0
  ensures below: forall(k, 0, old(len(b.Stack.Items))-3, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(3 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# app_opted_in
func teal.(*AppOptedInExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# app_params_get
func teal.(*AppParamsGetExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 2
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(appParamsFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))-1].T)
  ensures result1: b.Stack.Items[old(len(b.Stack.Items))].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]) && 0 <= e.Field && e.Field < len(appParamsFieldSpecs) && fieldOK(appParamsFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# arg
func teal.(*ArgExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# arg_0
func teal.(*Arg0Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# arg_1
func teal.(*Arg1Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# arg_2
func teal.(*Arg2Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# arg_3
func teal.(*Arg3Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# args
func teal.(*ArgsExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# assert
func teal.(*AssertExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 0
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# asset_holding_get
func teal.(*AssetHoldingGetExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 2
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(assetHoldingFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))-2].T)
  ensures result1: b.Stack.Items[old(len(b.Stack.Items))-1].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]) && 0 <= e.Field && e.Field < len(assetHoldingFieldSpecs) && fieldOK(assetHoldingFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# asset_params_get
func teal.(*AssetParamsGetExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 2
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(assetParamsFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))-1].T)
  ensures result1: b.Stack.Items[old(len(b.Stack.Items))].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]) && 0 <= e.Field && e.Field < len(assetParamsFieldSpecs) && fieldOK(assetParamsFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# b!=
func teal.(*BytesNeqExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# b%
func teal.(*BytesModuloExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# b&
func teal.(*BytesBitAndExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# b*
func teal.(*BmulExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# b+
func teal.(*BplusExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# b-
func teal.(*BminusExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# b/
func teal.(*BdivExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# b<
func teal.(*BltExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# b<=
func teal.(*BytesLeExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# b==
func teal.(*BytesEqExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# b>
func teal.(*BGtExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# b>=
func teal.(*BytesGeExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# b^
func teal.(*BytesBitXorExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# balance
func teal.(*BalanceExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# base64_decode
func teal.(*Base64DecodeExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# bitlen
func teal.(*BitLenExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# block
func teal.(*BlockExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(blockFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))-1].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]) && 0 <= e.Field && e.Field < len(blockFieldSpecs) && fieldOK(blockFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# box_create
func teal.(*BoxCreateExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# box_del
func teal.(*BoxDelExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# box_extract
func teal.(*BoxExtractExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(3 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 3 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-3, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-3].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(3 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# box_get
func teal.(*BoxGetExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 2
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 3
  ensures result1: b.Stack.Items[old(len(b.Stack.Items))].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# box_len
func teal.(*BoxLenExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 2
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 2
  ensures result1: b.Stack.Items[old(len(b.Stack.Items))].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# box_put
func teal.(*BoxPutExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 0
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# box_replace
func teal.(*BoxReplaceExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(3 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 3 + 0
  ensures below: forall(k, 0, old(len(b.Stack.Items))-3, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(3 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# bsqrt
func teal.(*BsqrtExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# btoi
func teal.(*BtoiExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# byte
func teal.(*ByteExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# bytec
func teal.(*BytecExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# bytec_0
func teal.(*Bytec0Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# bytec_1
func teal.(*Bytec1Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# bytec_2
func teal.(*Bytec2Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# bytec_3
func teal.(*Bytec3Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# bzero
func teal.(*BytesZeroExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# b|
func teal.(*BytesBitOrExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# b~
func teal.(*BytesBitNotExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# concat
func teal.(*ConcatExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# divmodw
func teal.(*DivModwExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(4 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-4]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 4 + 4
  ensures below: forall(k, 0, old(len(b.Stack.Items))-4, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-4].T == 2
  ensures result1: b.Stack.Items[old(len(b.Stack.Items))-3].T == 2
  ensures result2: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures result3: b.Stack.Items[old(len(b.Stack.Items))-1].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(4 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-4]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# divw
func teal.(*DivwExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(3 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 3 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-3, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-3].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(3 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# ec_add
func teal.(*EcAddExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# ec_map_to
func teal.(*EcMapToExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# ec_multi_exp
func teal.(*EcMultiExpExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# ec_pairing_check
func teal.(*EcPairingCheckExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# ec_scalar_mul
func teal.(*EcScalarMul).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# ec_subgroup_check
func teal.(*EcSubgroupCheckExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# ecdsa_pk_decompress
func teal.(*EcdsaPkDecompressExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 2
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 3
  ensures result1: b.Stack.Items[old(len(b.Stack.Items))].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# ecdsa_pk_recover
func teal.(*EcdsaPkRecoverExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(4 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-4]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 4 + 2
  ensures below: forall(k, 0, old(len(b.Stack.Items))-4, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-4].T == 3
  ensures result1: b.Stack.Items[old(len(b.Stack.Items))-3].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(4 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-4]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# ecdsa_verify
func teal.(*EcdsaVerifyExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(5 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-5]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-4]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 5 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-5, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-5].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(5 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-5]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-4]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# ed25519verify
func teal.(*ED25519VerifyExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(3 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 3 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-3, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-3].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(3 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# ed25519verify_bare
func teal.(*Ed25519VerifyBareExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(3 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 3 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-3, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-3].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(3 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# exp
func teal.(*ExpExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# expw
func teal.(*ExpwExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 2
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures result1: b.Stack.Items[old(len(b.Stack.Items))-1].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# extract
func teal.(*ExtractExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# extract3
func teal.(*Extract3Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(3 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 3 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-3, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-3].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(3 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# extract_uint16
func teal.(*ExtractUint16Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# extract_uint32
func teal.(*ExtractUint32Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# extract_uint64
func teal.(*Extract64BitsExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# gaid
func teal.(*GaidExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# gaids
func teal.(*GaidsExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# getbit
func teal.(*GetBitExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# getbyte
func teal.(*GetByteExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# gitxn
func teal.(*GitxnExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(txnFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true && 0 <= e.Field && e.Field < len(txnFieldSpecs) && fieldOK(txnFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# gitxna
func teal.(*GitxnaExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(txnFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true && 0 <= e.Field && e.Field < len(txnFieldSpecs) && fieldOK(txnFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# gitxnas
func teal.(*GitxnasExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(txnFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))-1].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]) && 0 <= e.Field && e.Field < len(txnFieldSpecs) && fieldOK(txnFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# gload
func teal.(*GloadExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: valT(b.Stack.Items[old(len(b.Stack.Items))].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# gloads
func teal.(*GloadsExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: valT(b.Stack.Items[old(len(b.Stack.Items))-1].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# gloadss
func teal.(*GloadssExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: valT(b.Stack.Items[old(len(b.Stack.Items))-2].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# global
func teal.(*GlobalExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(globalFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true && 0 <= e.Field && e.Field < len(globalFieldSpecs) && fieldOK(globalFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# gtxn
func teal.(*GtxnExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(txnFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true && 0 <= e.Field && e.Field < len(txnFieldSpecs) && fieldOK(txnFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# gtxna
func teal.(*GtxnaExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(txnFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true && 0 <= e.Field && e.Field < len(txnFieldSpecs) && fieldOK(txnFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# gtxnas
func teal.(*GtxnasExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(txnFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))-1].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]) && 0 <= e.Field && e.Field < len(txnFieldSpecs) && fieldOK(txnFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# gtxns
func teal.(*GtxnsExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(txnFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))-1].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]) && 0 <= e.Field && e.Field < len(txnFieldSpecs) && fieldOK(txnFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# gtxnsa
func teal.(*GtxnsaExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(txnFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))-1].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]) && 0 <= e.Field && e.Field < len(txnFieldSpecs) && fieldOK(txnFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# gtxnsas
func teal.(*GtxnsasExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(txnFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))-2].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]) && 0 <= e.Field && e.Field < len(txnFieldSpecs) && fieldOK(txnFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# int
func teal.(*IntExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# intc
func teal.(*IntcExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# intc_0
func teal.(*Intc0Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# intc_1
func teal.(*Intc1Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# intc_2
func teal.(*Intc2Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# intc_3
func teal.(*Intc3Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# itob
func teal.(*ItobExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# itxn
func teal.(*ItxnExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(txnFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true && 0 <= e.Field && e.Field < len(txnFieldSpecs) && fieldOK(txnFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# itxn_field
func teal.(*ItxnFieldExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 0
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# itxna
func teal.(*ItxnaExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(txnFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true && 0 <= e.Field && e.Field < len(txnFieldSpecs) && fieldOK(txnFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# itxnas
func teal.(*ItxnasExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(txnFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))-1].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]) && 0 <= e.Field && e.Field < len(txnFieldSpecs) && fieldOK(txnFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# json_ref
func teal.(*JsonRefExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: valT(b.Stack.Items[old(len(b.Stack.Items))-2].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# keccak256
func teal.(*Keccak256Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# len
func teal.(*LenExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# load
func teal.(*LoadExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b) && b.vm != nil
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: valT(b.Stack.Items[old(len(b.Stack.Items))].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# loads
func teal.(*LoadsExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: valT(b.Stack.Items[old(len(b.Stack.Items))-1].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# log
func teal.(*LogExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 0
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# method
func teal.(*MethodExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# min_balance
func teal.(*MinBalanceExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# mulw
func teal.(*MulwExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 2
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures result1: b.Stack.Items[old(len(b.Stack.Items))-1].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# pop
func teal.(*PopExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 0
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# pushbytes
func teal.(*PushBytesExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# pushint
func teal.(*PushIntExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# replace2
func teal.(*Replace2Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# replace3
func teal.(*Replace3Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(3 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 3 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-3, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-3].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(3 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# select
func teal.(*SelectExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(3 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 3 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-3, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: valT(b.Stack.Items[old(len(b.Stack.Items))-3].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(3 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# setbit
func teal.(*SetBitExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(3 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 3 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-3, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: valT(b.Stack.Items[old(len(b.Stack.Items))-3].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(3 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# setbyte
func teal.(*SetByteExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(3 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 3 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-3, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-3].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(3 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# sha256
func teal.(*Sha256Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# sha3_256
func teal.(*Sha3256Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# sha512_256
func teal.(*Sha512256Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# shl
func teal.(*ShlExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# shr
func teal.(*ShrExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# sqrt
func teal.(*SqrtExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# substring
func teal.(*SubstringExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# substring3
func teal.(*Substring3Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(3 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 3 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-3, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-3].T == 3
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(3 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# txn
func teal.(*TxnExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(txnFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true && 0 <= e.Field && e.Field < len(txnFieldSpecs) && fieldOK(txnFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# txna
func teal.(*TxnaExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 0 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-0, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(txnFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(true && 0 <= e.Field && e.Field < len(txnFieldSpecs) && fieldOK(txnFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# txnas
func teal.(*TxnasExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: fieldVm(txnFieldSpecs[e.Field].ftype, b.Stack.Items[old(len(b.Stack.Items))-1].T)
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]) && 0 <= e.Field && e.Field < len(txnFieldSpecs) && fieldOK(txnFieldSpecs[e.Field].ftype))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# vrf_verify
func teal.(*VrfVerifyExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(3 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 3 + 2
  ensures below: forall(k, 0, old(len(b.Stack.Items))-3, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-3].T == 3
  ensures result1: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(3 <= len(b.Stack.Items) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-3]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(3, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# |
func teal.(*BitOrExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# ||
func teal.(*OrExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 2 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-2, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-2].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(2 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-2]) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)

# ~
func teal.(*BitNotExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  ensures height: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 + 1
  ensures below: forall(k, 0, old(len(b.Stack.Items))-1, b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures result0: b.Stack.Items[old(len(b.Stack.Items))-1].T == 2
  ensures next: b.Line == old(b.Line) + 1 && own(b)
  panics stuck: !old(1 <= len(b.Stack.Items) && tyOK(2, b.Stack.Items[len(b.Stack.Items)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue), newelems(vmSource)
