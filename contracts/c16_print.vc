# C16: the printed text of every instruction. Generated by tools/mkprintvc.py
def dec(x) = ext("dec", string, x)

# the name tables (static data) are enumerated by the oracle
extern teal.(AcctParamsField).String(f) (s)
  flags pure
def nmAcctParamsField(x) = ext("teal.(AcctParamsField).String", string, x)

# the name tables (static data) are enumerated by the oracle
extern teal.(AppParamsField).String(f) (s)
  flags pure
def nmAppParamsField(x) = ext("teal.(AppParamsField).String", string, x)

# the name tables (static data) are enumerated by the oracle
extern teal.(AssetHoldingField).String(f) (s)
  flags pure
def nmAssetHoldingField(x) = ext("teal.(AssetHoldingField).String", string, x)

# the name tables (static data) are enumerated by the oracle
extern teal.(AssetParamsField).String(f) (s)
  flags pure
def nmAssetParamsField(x) = ext("teal.(AssetParamsField).String", string, x)

# the name tables (static data) are enumerated by the oracle
extern teal.(Base64Encoding).String(f) (s)
  flags pure
def nmBase64Encoding(x) = ext("teal.(Base64Encoding).String", string, x)

# the name tables (static data) are enumerated by the oracle
extern teal.(BlockField).String(f) (s)
  flags pure
def nmBlockField(x) = ext("teal.(BlockField).String", string, x)

# the name tables (static data) are enumerated by the oracle
extern teal.(EcGroup).String(f) (s)
  flags pure
def nmEcGroup(x) = ext("teal.(EcGroup).String", string, x)

# the name tables (static data) are enumerated by the oracle
extern teal.(EcdsaCurve).String(f) (s)
  flags pure
def nmEcdsaCurve(x) = ext("teal.(EcdsaCurve).String", string, x)

# the name tables (static data) are enumerated by the oracle
extern teal.(GlobalField).String(f) (s)
  flags pure
def nmGlobalField(x) = ext("teal.(GlobalField).String", string, x)

# the name tables (static data) are enumerated by the oracle
extern teal.(JSONRefType).String(f) (s)
  flags pure
def nmJSONRefType(x) = ext("teal.(JSONRefType).String", string, x)

# the name tables (static data) are enumerated by the oracle
extern teal.(TxnField).String(f) (s)
  flags pure
def nmTxnField(x) = ext("teal.(TxnField).String", string, x)

# the name tables (static data) are enumerated by the oracle
extern teal.(VrfStandard).String(f) (s)
  flags pure
def nmVrfStandard(x) = ext("teal.(VrfStandard).String", string, x)

func teal.(*AcctParamsGetExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "acct_params_get " + dec(e.Field) || r == "acct_params_get " + nmAcctParamsField(e.Field)
  modifies nothing

func teal.(*AddrExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "addr " + e.Address
  modifies nothing

func teal.(*AddwExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "addw"
  modifies nothing

func teal.(*AndExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "&&"
  modifies nothing

func teal.(*AppGlobalDelExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "app_global_del"
  modifies nothing

func teal.(*AppGlobalGetExExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "app_global_get_ex"
  modifies nothing

func teal.(*AppGlobalGetExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "app_global_get"
  modifies nothing

func teal.(*AppGlobalPutExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "app_global_put"
  modifies nothing

func teal.(*AppLocalDelExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "app_local_del"
  modifies nothing

func teal.(*AppLocalGetExExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "app_local_get_ex"
  modifies nothing

func teal.(*AppLocalGetExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "app_local_get"
  modifies nothing

func teal.(*AppLocalPutExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "app_local_put"
  modifies nothing

func teal.(*AppOptedInExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "app_opted_in"
  modifies nothing

func teal.(*AppParamsGetExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "app_params_get " + dec(e.Field) || r == "app_params_get " + nmAppParamsField(e.Field)
  modifies nothing

func teal.(*Arg0Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "arg_0"
  modifies nothing

func teal.(*Arg1Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "arg_1"
  modifies nothing

func teal.(*Arg2Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "arg_2"
  modifies nothing

func teal.(*Arg3Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "arg_3"
  modifies nothing

func teal.(*ArgExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "arg " + dec(e.Index)
  modifies nothing

func teal.(*ArgsExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "args"
  modifies nothing

func teal.(*AssertExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "assert"
  modifies nothing

func teal.(*AssetHoldingGetExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "asset_holding_get " + dec(e.Field) || r == "asset_holding_get " + nmAssetHoldingField(e.Field)
  modifies nothing

func teal.(*AssetParamsGetExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "asset_params_get " + dec(e.Field) || r == "asset_params_get " + nmAssetParamsField(e.Field)
  modifies nothing

func teal.(*BExpr).String(e) (r)
  props C16
  requires e != nil && e.Label != nil
  ensures text: r == "b " + e.Label.Name
  modifies nothing

func teal.(*BGtExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "b>"
  modifies nothing

func teal.(*BalanceExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "balance"
  modifies nothing

func teal.(*Base64DecodeExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "base64_decode " + dec(e.Index) || r == "base64_decode " + nmBase64Encoding(e.Index)
  modifies nothing

func teal.(*BdivExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "b/"
  modifies nothing

func teal.(*BitAndExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "&"
  modifies nothing

func teal.(*BitLenExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "bitlen"
  modifies nothing

func teal.(*BitNotExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "~"
  modifies nothing

func teal.(*BitOrExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "|"
  modifies nothing

func teal.(*BitXorExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "^"
  modifies nothing

func teal.(*BlockExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "block " + dec(e.Field) || r == "block " + nmBlockField(e.Field)
  modifies nothing

func teal.(*BltExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "b<"
  modifies nothing

func teal.(*BminusExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "b-"
  modifies nothing

func teal.(*BmulExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "b*"
  modifies nothing

func teal.(*BnzExpr).String(e) (r)
  props C16
  requires e != nil && e.Label != nil
  ensures text: r == "bnz " + e.Label.Name
  modifies nothing

func teal.(*BoxCreateExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "box_create"
  modifies nothing

func teal.(*BoxDelExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "box_del"
  modifies nothing

func teal.(*BoxExtractExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "box_extract"
  modifies nothing

func teal.(*BoxGetExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "box_get"
  modifies nothing

func teal.(*BoxLenExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "box_len"
  modifies nothing

func teal.(*BoxPutExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "box_put"
  modifies nothing

func teal.(*BoxReplaceExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "box_replace"
  modifies nothing

func teal.(*BplusExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "b+"
  modifies nothing

func teal.(*BsqrtExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "bsqrt"
  modifies nothing

func teal.(*BtoiExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "btoi"
  modifies nothing

func teal.(*BuryExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "bury " + dec(e.Depth)
  modifies nothing

func teal.(*Bytec0Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "bytec_0"
  modifies nothing

func teal.(*Bytec1Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "bytec_1"
  modifies nothing

func teal.(*Bytec2Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "bytec_2"
  modifies nothing

func teal.(*Bytec3Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "bytec_3"
  modifies nothing

func teal.(*BytecExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "bytec " + dec(e.Index)
  modifies nothing

func teal.(*BytesBitAndExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "b&"
  modifies nothing

func teal.(*BytesBitNotExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "b~"
  modifies nothing

func teal.(*BytesBitOrExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "b|"
  modifies nothing

func teal.(*BytesBitXorExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "b^"
  modifies nothing

func teal.(*BytesEqExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "b=="
  modifies nothing

func teal.(*BytesGeExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "b>="
  modifies nothing

func teal.(*BytesLeExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "b<="
  modifies nothing

func teal.(*BytesModuloExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "b%"
  modifies nothing

func teal.(*BytesNeqExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "b!="
  modifies nothing

func teal.(*BytesZeroExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "bzero"
  modifies nothing

func teal.(*BzExpr).String(e) (r)
  props C16
  requires e != nil && e.Label != nil
  ensures text: r == "bz " + e.Label.Name
  modifies nothing

func teal.(*CallSubExpr).String(e) (r)
  props C16
  requires e != nil && e.Label != nil
  ensures text: r == "callsub " + e.Label.Name
  modifies nothing

func teal.(*ConcatExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "concat"
  modifies nothing

func teal.(*CoverExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "cover " + dec(e.Depth)
  modifies nothing

func teal.(*DigExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "dig " + dec(e.Index)
  modifies nothing

func teal.(*DivExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "/"
  modifies nothing

func teal.(*DivModwExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "divmodw"
  modifies nothing

func teal.(*DivwExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "divw"
  modifies nothing

func teal.(*Dup2Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "dup2"
  modifies nothing

func teal.(*DupExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "dup"
  modifies nothing

func teal.(*DupNExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "dupn " + dec(e.Count)
  modifies nothing

func teal.(*ED25519VerifyExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "ed25519verify"
  modifies nothing

func teal.(*EcAddExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "ec_add " + dec(e.Group) || r == "ec_add " + nmEcGroup(e.Group)
  modifies nothing

func teal.(*EcMapToExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "ec_map_to " + dec(e.Group) || r == "ec_map_to " + nmEcGroup(e.Group)
  modifies nothing

func teal.(*EcMultiExpExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "ec_multi_exp " + dec(e.Group) || r == "ec_multi_exp " + nmEcGroup(e.Group)
  modifies nothing

func teal.(*EcPairingCheckExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "ec_pairing_check " + dec(e.Group) || r == "ec_pairing_check " + nmEcGroup(e.Group)
  modifies nothing

func teal.(*EcScalarMul).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "ec_scalar_mul " + dec(e.Group) || r == "ec_scalar_mul " + nmEcGroup(e.Group)
  modifies nothing

func teal.(*EcSubgroupCheckExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "ec_subgroup_check " + dec(e.Group) || r == "ec_subgroup_check " + nmEcGroup(e.Group)
  modifies nothing

func teal.(*EcdsaPkDecompressExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "ecdsa_pk_decompress " + dec(e.Index) || r == "ecdsa_pk_decompress " + nmEcdsaCurve(e.Index)
  modifies nothing

func teal.(*EcdsaPkRecoverExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "ecdsa_pk_recover " + dec(e.Index) || r == "ecdsa_pk_recover " + nmEcdsaCurve(e.Index)
  modifies nothing

func teal.(*EcdsaVerifyExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "ecdsa_verify " + dec(e.Index) || r == "ecdsa_verify " + nmEcdsaCurve(e.Index)
  modifies nothing

func teal.(*Ed25519VerifyBareExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "ed25519verify_bare"
  modifies nothing

func teal.(*EqExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "=="
  modifies nothing

func teal.(*ErrExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "err"
  modifies nothing

func teal.(*ExpExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "exp"
  modifies nothing

func teal.(*ExpwExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "expw"
  modifies nothing

func teal.(*Extract3Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "extract3" || r == "extract"
  modifies nothing

func teal.(*Extract64BitsExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "extract_uint64"
  modifies nothing

func teal.(*ExtractExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "extract " + dec(e.Start) + " " + dec(e.Length)
  modifies nothing

func teal.(*ExtractUint16Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "extract_uint16"
  modifies nothing

func teal.(*ExtractUint32Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "extract_uint32"
  modifies nothing

func teal.(*FrameBuryExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "frame_bury " + dec(e.Index)
  modifies nothing

func teal.(*FrameDigExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "frame_dig " + dec(e.Index)
  modifies nothing

func teal.(*GaidExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "gaid " + dec(e.Group)
  modifies nothing

func teal.(*GaidsExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "gaids"
  modifies nothing

func teal.(*GetBitExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "getbit"
  modifies nothing

func teal.(*GetByteExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "getbyte"
  modifies nothing

func teal.(*GitxnExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "gitxn " + dec(e.Index) + " " + dec(e.Field) || r == "gitxn " + dec(e.Index) + " " + nmTxnField(e.Field)
  modifies nothing

func teal.(*GitxnaExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "gitxna " + dec(e.Group) + " " + dec(e.Field) + " " + dec(e.Index) || r == "gitxna " + dec(e.Group) + " " + nmTxnField(e.Field) + " " + dec(e.Index)
  modifies nothing

func teal.(*GitxnasExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "gitxnas " + dec(e.Index) + " " + dec(e.Field) || r == "gitxnas " + dec(e.Index) + " " + nmTxnField(e.Field)
  modifies nothing

func teal.(*GloadExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "gload " + dec(e.Group) + " " + dec(e.Index)
  modifies nothing

func teal.(*GloadsExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "gloads " + dec(e.Index)
  modifies nothing

func teal.(*GloadssExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "gloadss"
  modifies nothing

func teal.(*GlobalExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "global " + dec(e.Field) || r == "global " + nmGlobalField(e.Field)
  modifies nothing

func teal.(*GtEqExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == ">="
  modifies nothing

func teal.(*GtExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == ">"
  modifies nothing

func teal.(*GtxnExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "gtxn " + dec(e.Group) + " " + dec(e.Field) || r == "gtxn " + dec(e.Group) + " " + nmTxnField(e.Field)
  modifies nothing

func teal.(*GtxnaExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "gtxna " + dec(e.Group) + " " + dec(e.Field) + " " + dec(e.Index) || r == "gtxna " + dec(e.Group) + " " + nmTxnField(e.Field) + " " + dec(e.Index) || r == "gtxn " + dec(e.Group) + " " + dec(e.Field) + " " + dec(e.Index) || r == "gtxn " + dec(e.Group) + " " + nmTxnField(e.Field) + " " + dec(e.Index)
  modifies nothing

func teal.(*GtxnasExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "gtxnas " + dec(e.Index) + " " + dec(e.Field) || r == "gtxnas " + dec(e.Index) + " " + nmTxnField(e.Field)
  modifies nothing

func teal.(*GtxnsExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "gtxns " + dec(e.Field) || r == "gtxns " + nmTxnField(e.Field)
  modifies nothing

func teal.(*GtxnsaExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "gtxnsa " + dec(e.Field) + " " + dec(e.Index) || r == "gtxnsa " + nmTxnField(e.Field) + " " + dec(e.Index) || r == "gtxns " + dec(e.Field) + " " + dec(e.Index) || r == "gtxns " + nmTxnField(e.Field) + " " + dec(e.Index)
  modifies nothing

func teal.(*GtxnsasExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "gtxnsas " + dec(e.Field) || r == "gtxnsas " + nmTxnField(e.Field)
  modifies nothing

func teal.(*IntExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "int " + dec(e.Value)
  modifies nothing

func teal.(*Intc0Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "intc_0"
  modifies nothing

func teal.(*Intc1Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "intc_1"
  modifies nothing

func teal.(*Intc2Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "intc_2"
  modifies nothing

func teal.(*Intc3Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "intc_3"
  modifies nothing

func teal.(*IntcExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "intc " + dec(e.Index)
  modifies nothing

func teal.(*ItobExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "itob"
  modifies nothing

func teal.(*ItxnBeginExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "itxn_begin"
  modifies nothing

func teal.(*ItxnExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "itxn " + dec(e.Field) || r == "itxn " + nmTxnField(e.Field)
  modifies nothing

func teal.(*ItxnFieldExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "itxn_field " + dec(e.Field) || r == "itxn_field " + nmTxnField(e.Field)
  modifies nothing

func teal.(*ItxnNextExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "itxn_next"
  modifies nothing

func teal.(*ItxnSubmitExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "itxn_submit"
  modifies nothing

func teal.(*ItxnaExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "itxna " + dec(e.Field) + " " + dec(e.Index) || r == "itxna " + nmTxnField(e.Field) + " " + dec(e.Index)
  modifies nothing

func teal.(*ItxnasExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "itxnas " + dec(e.Field) || r == "itxnas " + nmTxnField(e.Field)
  modifies nothing

func teal.(*JsonRefExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "json_ref " + dec(e.Index) || r == "json_ref " + nmJSONRefType(e.Index)
  modifies nothing

func teal.(*Keccak256Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "keccak256"
  modifies nothing

func teal.(*LenExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "len"
  modifies nothing

func teal.(*LoadExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "load " + dec(e.Index)
  modifies nothing

func teal.(*LoadsExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "loads"
  modifies nothing

func teal.(*LogExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "log"
  modifies nothing

func teal.(*LtEqExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "<="
  modifies nothing

func teal.(*LtExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "<"
  modifies nothing

func teal.(*MinBalanceExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "min_balance"
  modifies nothing

func teal.(*MinusExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "-"
  modifies nothing

func teal.(*ModExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "%"
  modifies nothing

func teal.(*MulExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "*"
  modifies nothing

func teal.(*MulwExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "mulw"
  modifies nothing

func teal.(*NeqExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "!="
  modifies nothing

func teal.(*NotExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "!"
  modifies nothing

func teal.(*OrExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "||"
  modifies nothing

func teal.(*PlusExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "+"
  modifies nothing

func teal.(*PopExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "pop"
  modifies nothing

func teal.(*PopNExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "popn " + dec(e.Depth)
  modifies nothing

func teal.(*PragmaExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "#pragma version " + dec(e.Version)
  modifies nothing

func teal.(*ProtoExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "proto " + dec(e.Args) + " " + dec(e.Results)
  modifies nothing

func teal.(*PushIntExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "pushint " + dec(e.Value)
  modifies nothing

func teal.(*Replace2Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "replace2 " + dec(e.Start) || r == "replace " + dec(e.Start)
  modifies nothing

func teal.(*Replace3Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "replace3" || r == "replace"
  modifies nothing

func teal.(*RetSubExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "retsub"
  modifies nothing

func teal.(*ReturnExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "return"
  modifies nothing

func teal.(*SelectExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "select"
  modifies nothing

func teal.(*SetBitExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "setbit"
  modifies nothing

func teal.(*SetByteExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "setbyte"
  modifies nothing

func teal.(*Sha256Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "sha256"
  modifies nothing

func teal.(*Sha3256Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "sha3_256"
  modifies nothing

func teal.(*Sha512256Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "sha512_256"
  modifies nothing

func teal.(*ShlExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "shl"
  modifies nothing

func teal.(*ShrExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "shr"
  modifies nothing

func teal.(*SqrtExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "sqrt"
  modifies nothing

func teal.(*StoreExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "store " + dec(e.Index)
  modifies nothing

func teal.(*StoresExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "stores"
  modifies nothing

func teal.(*Substring3Expr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "substring3"
  modifies nothing

func teal.(*SubstringExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "substring " + dec(e.Start) + " " + dec(e.End)
  modifies nothing

func teal.(*SwapExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "swap"
  modifies nothing

func teal.(*TxnExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "txn " + dec(e.Field) || r == "txn " + nmTxnField(e.Field)
  modifies nothing

func teal.(*TxnaExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "txna " + dec(e.Field) + " " + dec(e.Index) || r == "txna " + nmTxnField(e.Field) + " " + dec(e.Index) || r == "txn " + dec(e.Field) + " " + dec(e.Index) || r == "txn " + nmTxnField(e.Field) + " " + dec(e.Index)
  modifies nothing

func teal.(*TxnasExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "txnas " + dec(e.Field) || r == "txnas " + nmTxnField(e.Field)
  modifies nothing

func teal.(*UncoverExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "uncover " + dec(e.Depth)
  modifies nothing

func teal.(*VrfVerifyExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "vrf_verify " + dec(e.Field) || r == "vrf_verify " + nmVrfStandard(e.Field)
  modifies nothing

func teal.(*LabelExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == e.Name + ":"
  modifies nothing

# ---- instructions with any number of immediates: the items, separated by single blanks
def sameText(a, b) = len(a) == len(b) && forall(p, 0, len(a), a[p] == b[p])
rec ext joinS(s []string, sep string, k int) string = ite(k <= 0, "", ite(k == 1, s[0], joinS(s, sep, k-1) + sep + s[k-1]))
extern strings.Join(s, sep) (r)
  ensures r == joinS(s, sep, len(s))
  flags pure
rec ext joinL(t []*LabelExpr, k int) string = ite(k <= 0, "", ite(k == 1, t[0].Name, joinL(t, k-1) + " " + t[k-1].Name))
rec ext joinD(v []uint64, k int) string = ite(k <= 0, "", ite(k == 1, dec(v[0]), joinD(v, k-1) + " " + dec(v[k-1])))
lemma joinLS(s []string, t []*LabelExpr, k int) by k trigger(joinS(s, " ", k), joinL(t, k)): imp(forall(j, 0, k, s[j] == t[j].Name), joinS(s, " ", k) == joinL(t, k))
lemma joinDS(s []string, v []uint64, k int) by k trigger(joinS(s, " ", k), joinD(v, k)): imp(forall(j, 0, k, s[j] == dec(v[j])), joinS(s, " ", k) == joinD(v, k))

func teal.(*IntcBlockExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: (len(e.Values) == 0 && r == "intcblock") || r == "intcblock " + joinD(e.Values, len(e.Values))
  modifies newelems(string)
  flags terminates
  invariant <i:idx, s:[]string> forall(j, 0, i, s[j] == dec(e.Values[j]))
  invariant <i:idx, s:![]string> len(s) == i
  invariant <s:![]string> base(s) == 0 || fresh(s)

func teal.(*PushIntsExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: (len(e.Ints) == 0 && r == "pushints") || r == "pushints " + joinD(e.Ints, len(e.Ints))
  modifies newelems(string)
  flags terminates
  invariant <i:idx, s:[]string> forall(j, 0, i, s[j] == dec(e.Ints[j]))
  invariant <i:idx, s:![]string> len(s) == i
  invariant <s:![]string> base(s) == 0 || fresh(s)

func teal.(*SwitchExpr).String(e) (r)
  props C16
  requires e != nil && forall(j, 0, len(e.Targets), e.Targets[j] != nil)
  ensures text: (len(e.Targets) == 0 && sameText(r, "switch")) || sameText(r, "switch " + joinL(e.Targets, len(e.Targets)))
  modifies newelems(string), newelems(byte)
  flags terminates
  invariant <i:idx, s:[]string> forall(j, 0, i, s[j] == e.Targets[j].Name)
  invariant <i:idx, s:![]string> len(s) == i
  invariant <s:![]string> base(s) == 0 || fresh(s)

func teal.(*MatchExpr).String(e) (r)
  props C16
  requires e != nil && forall(j, 0, len(e.Targets), e.Targets[j] != nil)
  ensures text: (len(e.Targets) == 0 && sameText(r, "match")) || sameText(r, "match " + joinL(e.Targets, len(e.Targets)))
  modifies newelems(string), newelems(byte)
  flags terminates
  invariant <i:idx, s:[]string> forall(j, 0, i, s[j] == e.Targets[j].Name)
  invariant <i:idx, s:![]string> len(s) == i
  invariant <s:![]string> base(s) == 0 || fresh(s)

# ---- byte values: printed in hexadecimal or in base64
def hexT(v) = ext("encoding/hex.EncodeToString", string, v)
def b64T(v) = ext("(*encoding/base64.Encoding).EncodeToString", string, base64.StdEncoding, v)

func teal.(Bytes).String(e) (r)
  props C16
  requires e.Format == 0
  ensures text: r == "0x" + hexT(e.Value) || r == "b64(" + b64T(e.Value) + ")"
  modifies nothing
  flags nopanic inline

func teal.(*ByteExpr).String(e) (r)
  props C16
  requires e != nil && e.Format == 0
  ensures text: sameText(r, "byte 0x" + hexT(e.Value)) || sameText(r, "byte b64(" + b64T(e.Value) + ")")
  modifies nothing

func teal.(*PushBytesExpr).String(e) (r)
  props C16
  requires e != nil && e.Format == 0
  ensures text: sameText(r, "pushbytes 0x" + hexT(e.Value)) || sameText(r, "pushbytes b64(" + b64T(e.Value) + ")")
  modifies nothing

rec ext joinH(v [][]byte, k int) string = ite(k <= 0, "", ite(k == 1, "0x" + hexT(v[0]), joinH(v, k-1) + " 0x" + hexT(v[k-1])))
rec ext joinB(v [][]byte, k int) string = ite(k <= 0, "", ite(k == 1, "b64(" + b64T(v[0]) + ")", joinB(v, k-1) + " b64(" + b64T(v[k-1]) + ")"))
lemma joinHS(s []string, v [][]byte, k int) by k trigger(joinS(s, " ", k), joinH(v, k)): imp(forall(j, 0, k, s[j] == "0x" + hexT(v[j])), sameText(joinS(s, " ", k), joinH(v, k)))
lemma joinBS(s []string, v [][]byte, k int) by k trigger(joinS(s, " ", k), joinB(v, k)): imp(forall(j, 0, k, s[j] == "b64(" + b64T(v[j]) + ")"), sameText(joinS(s, " ", k), joinB(v, k)))

func teal.(*BytecBlockExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: (len(e.Values) == 0 && r == "bytecblock") || sameText(r, "bytecblock " + joinH(e.Values, len(e.Values))) || sameText(r, "bytecblock " + joinB(e.Values, len(e.Values)))
  modifies newelems(string)
  flags terminates
  invariant <i:idx, s:[]string> forall(j, 0, i, s[j] == "0x" + hexT(e.Values[j]))
  invariant <i:idx, s:[]string> forall(j, 0, i, s[j] == "b64(" + b64T(e.Values[j]) + ")")
  invariant <i:idx, s:![]string> len(s) == i
  invariant <s:![]string> base(s) == 0 || fresh(s)

func teal.(*PushBytessExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: (len(e.Bytess) == 0 && r == "pushbytess") || sameText(r, "pushbytess " + joinH(e.Bytess, len(e.Bytess))) || sameText(r, "pushbytess " + joinB(e.Bytess, len(e.Bytess)))
  modifies newelems(string)
  flags terminates
  invariant <i:idx, s:[]string> forall(j, 0, i, s[j] == "0x" + hexT(e.Bytess[j]))
  invariant <i:idx, s:[]string> forall(j, 0, i, s[j] == "b64(" + b64T(e.Bytess[j]) + ")")
  invariant <i:idx, s:![]string> len(s) == i
  invariant <s:![]string> base(s) == 0 || fresh(s)

# the scanner turns an escaped quote back into a quote (C01)
func teal.(*MethodExpr).String(e) (r)
  props C16
  requires e != nil
  ensures text: r == "method \"" + ext("strings.ReplaceAll", string, e.Signature, "\"", "\\\"") + "\""
  modifies nothing
