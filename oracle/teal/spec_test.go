package teal

// Reference tables of the language: opcodes (name, first logicsig version, first
// app version, immediates, resulting instruction and where its immediates go) and
// named fields (kind, number, name, version, inner transaction version, array).
// Cross-checked with langspec.json (names, numbers, array and itxn_field sets).
const specOps = `!	1	1		NotExpr()
!=	1	1		NeqExpr()
%	1	1		ModExpr()
&	1	1		BitAndExpr()
&&	1	1		AndExpr()
*	1	1		MulExpr()
+	1	1		PlusExpr()
-	1	1		MinusExpr()
/	1	1		DivExpr()
<	1	1		LtExpr()
<=	1	1		LtEqExpr()
==	1	1		EqExpr()
>	1	1		GtExpr()
>=	1	1		GtEqExpr()
^	1	1		BitXorExpr()
acct_params_get	0	6	acct	AcctParamsGetExpr(Field)
addr	1	1	addr	AddrExpr(Address)
addw	2	2		AddwExpr()
app_global_del	0	2		AppGlobalDelExpr()
app_global_get	0	2		AppGlobalGetExpr()
app_global_get_ex	0	2		AppGlobalGetExExpr()
app_global_put	0	2		AppGlobalPutExpr()
app_local_del	0	2		AppLocalDelExpr()
app_local_get	0	2		AppLocalGetExpr()
app_local_get_ex	0	2		AppLocalGetExExpr()
app_local_put	0	2		AppLocalPutExpr()
app_opted_in	0	2		AppOptedInExpr()
app_params_get	0	5	app	AppParamsGetExpr(Field)
arg	1	0	u8	ArgExpr(Index)
arg_0	1	0		Arg0Expr()
arg_1	1	0		Arg1Expr()
arg_2	1	0		Arg2Expr()
arg_3	1	0		Arg3Expr()
args	5	0		ArgsExpr()
assert	3	3		AssertExpr()
asset_holding_get	0	2	holding	AssetHoldingGetExpr(Field)
asset_params_get	0	2	asset	AssetParamsGetExpr(Field)
b	2	2	label	BExpr(Label)
b!=	4	4		BytesNeqExpr()
b%	4	4		BytesModuloExpr()
b&	4	4		BytesBitAndExpr()
b*	4	4		BmulExpr()
b+	4	4		BplusExpr()
b-	4	4		BminusExpr()
b/	4	4		BdivExpr()
b<	4	4		BltExpr()
b<=	4	4		BytesLeExpr()
b==	4	4		BytesEqExpr()
b>	4	4		BGtExpr()
b>=	4	4		BytesGeExpr()
b^	4	4		BytesBitXorExpr()
balance	0	2		BalanceExpr()
base64_decode	7	7	b64	Base64DecodeExpr(Index)
bitlen	4	4		BitLenExpr()
block	7	7	block	BlockExpr(Field)
bnz	1	1	label	BnzExpr(Label)
box_create	0	8		BoxCreateExpr()
box_del	0	8		BoxDelExpr()
box_extract	0	8		BoxExtractExpr()
box_get	0	8		BoxGetExpr()
box_len	0	8		BoxLenExpr()
box_put	0	8		BoxPutExpr()
box_replace	0	8		BoxReplaceExpr()
bsqrt	6	6		BsqrtExpr()
btoi	1	1		BtoiExpr()
bury	8	8	u8	BuryExpr(Depth)
byte	1	1	bytes	ByteExpr(Value)
bytec	1	1	u8	BytecExpr(Index)
bytec_0	1	1		Bytec0Expr()
bytec_1	1	1		Bytec1Expr()
bytec_2	1	1		Bytec2Expr()
bytec_3	1	1		Bytec3Expr()
bytecblock	1	1	bytes*	BytecBlockExpr() BytecBlockExpr(Values)
bz	2	2	label	BzExpr(Label)
bzero	4	4		BytesZeroExpr()
b|	4	4		BytesBitOrExpr()
b~	4	4		BytesBitNotExpr()
callsub	4	4	label	CallSubExpr(Label)
concat	2	2		ConcatExpr()
cover	5	5	u8	CoverExpr(Depth)
dig	3	3	u8	DigExpr(Index)
divmodw	4	4		DivModwExpr()
divw	6	6		DivwExpr()
dup	1	1		DupExpr()
dup2	2	2		Dup2Expr()
dupn	8	8	u8	DupNExpr(Count)
ec_add	9	9	ec	EcAddExpr(Group)
ec_map_to	9	9	ec	EcMapToExpr(Group)
ec_multi_exp	9	9	ec	EcMultiExpExpr(Group)
ec_pairing_check	9	9	ec	EcPairingCheckExpr(Group)
ec_scalar_mul	9	9	ec	EcScalarMul(Group)
ec_subgroup_check	9	9	ec	EcSubgroupCheckExpr(Group)
ecdsa_pk_decompress	5	5	ecdsa	EcdsaPkDecompressExpr(Index)
ecdsa_pk_recover	5	5	ecdsa	EcdsaPkRecoverExpr(Index)
ecdsa_verify	5	5	ecdsa	EcdsaVerifyExpr(Index)
ed25519verify	1	5		ED25519VerifyExpr()
ed25519verify_bare	7	7		Ed25519VerifyBareExpr()
err	1	1		ErrExpr()
exp	4	4		ExpExpr()
expw	4	4		ExpwExpr()
extract	5	5	u8? u8?	Extract3Expr() ExtractExpr(Start,Length)
extract3	5	5		Extract3Expr()
extract_uint16	5	5		ExtractUint16Expr()
extract_uint32	5	5		ExtractUint32Expr()
extract_uint64	5	5		Extract64BitsExpr()
frame_bury	8	8	i8	FrameBuryExpr(Index)
frame_dig	8	8	i8	FrameDigExpr(Index)
gaid	0	4	u8	GaidExpr(Group)
gaids	0	4		GaidsExpr()
getbit	3	3		GetBitExpr()
getbyte	3	3		GetByteExpr()
gitxn	0	6	u8 txn	GitxnExpr(Index,Field)
gitxna	0	6	u8 txna u8	GitxnaExpr(Group,Field,Index)
gitxnas	0	6	u8 txna	GitxnasExpr(Index,Field)
gload	0	4	u8 u8	GloadExpr(Group,Index)
gloads	0	4	u8	GloadsExpr(Index)
gloadss	0	6		GloadssExpr()
global	1	1	global	GlobalExpr(Field)
gtxn	1	1	u8 txn u8?	GtxnExpr(Group,Field) GtxnaExpr(Group,Field,Index)
gtxna	2	2	u8 txna u8	GtxnaExpr(Group,Field,Index)
gtxnas	5	5	u8 txna	GtxnasExpr(Index,Field)
gtxns	3	3	txn u8?	GtxnsExpr(Field) GtxnsaExpr(Field,Index)
gtxnsa	3	3	txna u8	GtxnsaExpr(Field,Index)
gtxnsas	5	5	txna	GtxnsasExpr(Field)
int	1	1	const	IntExpr(Value)
intc	1	1	u8	IntcExpr(Index)
intc_0	1	1		Intc0Expr()
intc_1	1	1		Intc1Expr()
intc_2	1	1		Intc2Expr()
intc_3	1	1		Intc3Expr()
intcblock	1	1	u64*	IntcBlockExpr() IntcBlockExpr(Values)
itob	1	1		ItobExpr()
itxn	0	5	txn	ItxnExpr(Field)
itxn_begin	0	5		ItxnBeginExpr()
itxn_field	0	5	itxn	ItxnFieldExpr(Field)
itxn_next	0	6		ItxnNextExpr()
itxn_submit	0	5		ItxnSubmitExpr()
itxna	0	5	txna u8	ItxnaExpr(Field,Index)
itxnas	0	6	txna	ItxnasExpr(Field)
json_ref	7	7	json	JsonRefExpr(Index)
keccak256	1	1		Keccak256Expr()
len	1	1		LenExpr()
load	1	1	u8	LoadExpr(Index)
loads	5	5		LoadsExpr()
log	0	5		LogExpr()
match	8	8	label*	MatchExpr() MatchExpr(Targets)
method	1	1	sig	MethodExpr(Signature)
min_balance	0	3		MinBalanceExpr()
mulw	1	1		MulwExpr()
pop	1	1		PopExpr()
popn	8	8	u8	PopNExpr(Depth)
proto	8	8	u8 u8	ProtoExpr(Args,Results)
pushbytes	3	3	bytes	PushBytesExpr(Value)
pushbytess	8	8	bytes*	PushBytessExpr() PushBytessExpr(Bytess)
pushint	3	3	u64	PushIntExpr(Value)
pushints	8	8	u64*	PushIntsExpr() PushIntsExpr(Ints)
replace	7	7	u8?	Replace3Expr() Replace2Expr(Start)
replace2	7	7	u8	Replace2Expr(Start)
replace3	7	7		Replace3Expr()
retsub	4	4		RetSubExpr()
return	2	2		ReturnExpr()
select	3	3		SelectExpr()
setbit	3	3		SetBitExpr()
setbyte	3	3		SetByteExpr()
sha256	1	1		Sha256Expr()
sha3_256	7	7		Sha3256Expr()
sha512_256	1	1		Sha512256Expr()
shl	4	4		ShlExpr()
shr	4	4		ShrExpr()
sqrt	4	4		SqrtExpr()
store	1	1	u8	StoreExpr(Index)
stores	5	5		StoresExpr()
substring	2	2	u8 u8	SubstringExpr(Start,End)
substring3	2	2		Substring3Expr()
swap	3	3		SwapExpr()
switch	8	8	label*	SwitchExpr() SwitchExpr(Targets)
txn	1	1	txn u8?	TxnExpr(Field) TxnaExpr(Field,Index)
txna	2	2	txna u8	TxnaExpr(Field,Index)
txnas	5	5	txna	TxnasExpr(Field)
uncover	5	5	u8	UncoverExpr(Depth)
vrf_verify	7	7	vrf	VrfVerifyExpr(Field)
|	1	1		BitOrExpr()
||	1	1		OrExpr()
~	1	1		BitNotExpr()
`

const specFields = `acct	0	AcctBalance	6	0	0
acct	1	AcctMinBalance	6	0	0
acct	2	AcctAuthAddr	6	0	0
acct	3	AcctTotalNumUint	8	0	0
acct	4	AcctTotalNumByteSlice	8	0	0
acct	5	AcctTotalExtraAppPages	8	0	0
acct	6	AcctTotalAppsCreated	8	0	0
acct	7	AcctTotalAppsOptedIn	8	0	0
acct	8	AcctTotalAssetsCreated	8	0	0
acct	9	AcctTotalAssets	8	0	0
acct	10	AcctTotalBoxes	8	0	0
acct	11	AcctTotalBoxBytes	8	0	0
app	0	AppApprovalProgram	5	0	0
app	1	AppClearStateProgram	5	0	0
app	2	AppGlobalNumUint	5	0	0
app	3	AppGlobalNumByteSlice	5	0	0
app	4	AppLocalNumUint	5	0	0
app	5	AppLocalNumByteSlice	5	0	0
app	6	AppExtraProgramPages	5	0	0
app	7	AppCreator	5	0	0
app	8	AppAddress	5	0	0
asset	0	AssetTotal	2	0	0
asset	1	AssetDecimals	2	0	0
asset	2	AssetDefaultFrozen	2	0	0
asset	3	AssetUnitName	2	0	0
asset	4	AssetName	2	0	0
asset	5	AssetURL	2	0	0
asset	6	AssetMetadataHash	2	0	0
asset	7	AssetManager	2	0	0
asset	8	AssetReserve	2	0	0
asset	9	AssetFreeze	2	0	0
asset	10	AssetClawback	2	0	0
asset	11	AssetCreator	5	0	0
b64	0	URLEncoding	6	0	0
b64	1	StdEncoding	6	0	0
block	0	BlkSeed	7	0	0
block	1	BlkTimestamp	7	0	0
const	0	NoOp	0	0	0
const	0	Unknown type. Invalid transaction	0	0	0
const	0	unknown	0	0	0
const	1	OptIn	0	0	0
const	1	Payment	0	0	0
const	1	pay	0	0	0
const	2	CloseOut	0	0	0
const	2	KeyRegistration	0	0	0
const	2	keyreg	0	0	0
const	3	AssetConfig	0	0	0
const	3	ClearState	0	0	0
const	3	acfg	0	0	0
const	4	AssetTransfer	0	0	0
const	4	UpdateApplication	0	0	0
const	4	axfer	0	0	0
const	5	AssetFreeze	0	0	0
const	5	DeleteApplication	0	0	0
const	5	afrz	0	0	0
const	6	ApplicationCall	0	0	0
const	6	appl	0	0	0
ec	0	BN254_G1	9	0	0
ec	1	BN254_G2	9	0	0
ec	2	BLS12_381_G1	9	0	0
ec	3	BLS12_381_G2	9	0	0
ecdsa	0	Secp256k1	5	0	0
ecdsa	1	Secp256r1	7	0	0
global	0	MinTxnFee	0	0	0
global	1	MinBalance	0	0	0
global	2	MaxTxnLife	0	0	0
global	3	ZeroAddress	0	0	0
global	4	GroupSize	0	0	0
global	5	LogicSigVersion	2	0	0
global	6	Round	2	0	0
global	7	LatestTimestamp	2	0	0
global	8	CurrentApplicationID	2	0	0
global	9	CreatorAddress	3	0	0
global	10	CurrentApplicationAddress	5	0	0
global	11	GroupID	5	0	0
global	12	OpcodeBudget	6	0	0
global	13	CallerApplicationID	6	0	0
global	14	CallerApplicationAddress	6	0	0
holding	0	AssetBalance	2	0	0
holding	1	AssetFrozen	2	0	0
json	0	JSONString	7	0	0
json	1	JSONUint64	7	0	0
json	2	JSONObject	7	0	0
txn	0	Sender	0	5	0
txn	1	Fee	0	5	0
txn	2	FirstValid	0	0	0
txn	3	FirstValidTime	7	0	0
txn	4	LastValid	0	0	0
txn	5	Note	0	6	0
txn	6	Lease	0	0	0
txn	7	Receiver	0	5	0
txn	8	Amount	0	5	0
txn	9	CloseRemainderTo	0	5	0
txn	10	VotePK	0	6	0
txn	11	SelectionPK	0	6	0
txn	12	VoteFirst	0	6	0
txn	13	VoteLast	0	6	0
txn	14	VoteKeyDilution	0	6	0
txn	15	Type	0	5	0
txn	16	TypeEnum	0	5	0
txn	17	XferAsset	0	5	0
txn	18	AssetAmount	0	5	0
txn	19	AssetSender	0	5	0
txn	20	AssetReceiver	0	5	0
txn	21	AssetCloseTo	0	5	0
txn	22	GroupIndex	0	0	0
txn	23	TxID	0	0	0
txn	24	ApplicationID	2	6	0
txn	25	OnCompletion	2	6	0
txn	26	ApplicationArgs	2	6	1
txn	27	NumAppArgs	2	0	0
txn	28	Accounts	2	6	1
txn	29	NumAccounts	2	0	0
txn	30	ApprovalProgram	2	6	0
txn	31	ClearStateProgram	2	6	0
txn	32	RekeyTo	2	6	0
txn	33	ConfigAsset	2	5	0
txn	34	ConfigAssetTotal	2	5	0
txn	35	ConfigAssetDecimals	2	5	0
txn	36	ConfigAssetDefaultFrozen	2	5	0
txn	37	ConfigAssetUnitName	2	5	0
txn	38	ConfigAssetName	2	5	0
txn	39	ConfigAssetURL	2	5	0
txn	40	ConfigAssetMetadataHash	2	5	0
txn	41	ConfigAssetManager	2	5	0
txn	42	ConfigAssetReserve	2	5	0
txn	43	ConfigAssetFreeze	2	5	0
txn	44	ConfigAssetClawback	2	5	0
txn	45	FreezeAsset	2	5	0
txn	46	FreezeAssetAccount	2	5	0
txn	47	FreezeAssetFrozen	2	5	0
txn	48	Assets	3	6	1
txn	49	NumAssets	3	0	0
txn	50	Applications	3	6	1
txn	51	NumApplications	3	0	0
txn	52	GlobalNumUint	3	6	0
txn	53	GlobalNumByteSlice	3	6	0
txn	54	LocalNumUint	3	6	0
txn	55	LocalNumByteSlice	3	6	0
txn	56	ExtraProgramPages	4	6	0
txn	57	Nonparticipation	5	6	0
txn	58	Logs	5	0	1
txn	59	NumLogs	5	0	0
txn	60	CreatedAssetID	5	0	0
txn	61	CreatedApplicationID	5	0	0
txn	62	LastLog	6	0	0
txn	63	StateProofPK	6	6	0
txn	64	ApprovalProgramPages	7	7	1
txn	65	NumApprovalProgramPages	7	0	0
txn	66	ClearStateProgramPages	7	7	1
txn	67	NumClearStateProgramPages	7	0	0
vrf	0	VrfAlgorand	7	0	0
`
