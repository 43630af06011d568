package teal

// Reference stack effects: opcode, types consumed (deepest first), types produced,
// for every opcode the simulator gives an effect (immediate-dependent ones are in
// vm_test.go). U integer, B bytes, . any; field results by field. From langspec.json.
const specEffects = `!	U	U
!=	..	U
%	UU	U
&	UU	U
&&	UU	U
*	UU	U
+	UU	U
-	UU	U
/	UU	U
<	UU	U
<=	UU	U
==	..	U
>	UU	U
>=	UU	U
^	UU	U
acct_params_get	.	.U
addr		B
addw	UU	UU
app_global_del	B	
app_global_get	B	.
app_global_get_ex	UB	.U
app_global_put	B.	
app_local_del	.B	
app_local_get	.B	.
app_local_get_ex	.UB	.U
app_local_put	.B.	
app_opted_in	.U	U
app_params_get	U	.U
arg		B
arg_0		B
arg_1		B
arg_2		B
arg_3		B
args	U	B
assert	U	
asset_holding_get	.U	.U
asset_params_get	U	.U
b		
b!=	BB	U
b%	BB	B
b&	BB	B
b*	BB	B
b+	BB	B
b-	BB	B
b/	BB	B
b<	BB	U
b<=	BB	U
b==	BB	U
b>	BB	U
b>=	BB	U
b^	BB	B
balance	.	U
base64_decode	B	B
bitlen	.	U
block	U	.
bnz	U	
box_create	BU	U
box_del	B	U
box_extract	BUU	B
box_get	B	BU
box_len	B	UU
box_put	BB	
box_replace	BUB	
bsqrt	B	B
btoi	B	U
bury	.	
byte		B
bytec		B
bytec_0		B
bytec_1		B
bytec_2		B
bytec_3		B
bytecblock		
bz	U	
bzero	U	B
b|	BB	B
b~	B	B
callsub		
concat	BB	B
cover	.	.
dig	.	..
divmodw	UUUU	UUUU
divw	UUU	U
dup	.	..
dup2	..	....
dupn	.	
ec_add	BB	B
ec_map_to	B	B
ec_multi_exp	BB	B
ec_pairing_check	BB	U
ec_scalar_mul	BB	B
ec_subgroup_check	B	U
ecdsa_pk_decompress	B	BB
ecdsa_pk_recover	BUBB	BB
ecdsa_verify	BBBBB	U
ed25519verify	BBB	U
ed25519verify_bare	BBB	U
err		
exp	UU	U
expw	UU	UU
extract	B	B
extract3	BUU	B
extract_uint16	BU	U
extract_uint32	BU	U
extract_uint64	BU	U
frame_bury	.	
frame_dig		.
gaid		U
gaids	U	U
getbit	.U	U
getbyte	BU	U
gitxn		.
gitxna		.
gitxnas	U	.
gload		.
gloads	U	.
gloadss	UU	.
global		.
gtxn		.
gtxna		.
gtxnas	U	.
gtxns	U	.
gtxnsa	U	.
gtxnsas	UU	.
int		U
intc		U
intc_0		U
intc_1		U
intc_2		U
intc_3		U
intcblock		
itob	U	B
itxn		.
itxn_begin		
itxn_field	.	
itxn_next		
itxn_submit		
itxna		.
itxnas	U	.
json_ref	BB	.
keccak256	B	B
len	B	U
load		.
loads	U	.
log	B	
match		
method		B
min_balance	.	U
mulw	UU	UU
pop	.	
popn		
proto		
pushbytes		B
pushbytess		
pushint		U
pushints		
replace2	BB	B
replace3	BUB	B
retsub		
return	U	
select	..U	.
setbit	.UU	.
setbyte	BUU	B
sha256	B	B
sha3_256	B	B
sha512_256	B	B
shl	UU	U
shr	UU	U
sqrt	U	U
store	.	
stores	U.	
substring	B	B
substring3	BUU	B
swap	..	..
switch	U	
txn		.
txna		.
txnas	U	.
uncover	.	.
vrf_verify	BBB	BU
|	UU	U
||	UU	U
~	U	U
`

const specTypes = `txn	Sender:B Fee:U FirstValid:U FirstValidTime:U LastValid:U Note:B Lease:B Receiver:B Amount:U CloseRemainderTo:B VotePK:B SelectionPK:B VoteFirst:U VoteLast:U VoteKeyDilution:U Type:B TypeEnum:U XferAsset:U AssetAmount:U AssetSender:B AssetReceiver:B AssetCloseTo:B GroupIndex:U TxID:B ApplicationID:U OnCompletion:U ApplicationArgs:B NumAppArgs:U Accounts:B NumAccounts:U ApprovalProgram:B ClearStateProgram:B RekeyTo:B ConfigAsset:U ConfigAssetTotal:U ConfigAssetDecimals:U ConfigAssetDefaultFrozen:U ConfigAssetUnitName:B ConfigAssetName:B ConfigAssetURL:B ConfigAssetMetadataHash:B ConfigAssetManager:B ConfigAssetReserve:B ConfigAssetFreeze:B ConfigAssetClawback:B FreezeAsset:U FreezeAssetAccount:B FreezeAssetFrozen:U Assets:U NumAssets:U Applications:U NumApplications:U GlobalNumUint:U GlobalNumByteSlice:U LocalNumUint:U LocalNumByteSlice:U ExtraProgramPages:U Nonparticipation:U Logs:B NumLogs:U CreatedAssetID:U CreatedApplicationID:U LastLog:B StateProofPK:B ApprovalProgramPages:B NumApprovalProgramPages:U ClearStateProgramPages:B NumClearStateProgramPages:U
global	MinTxnFee:U MinBalance:U MaxTxnLife:U ZeroAddress:B GroupSize:U LogicSigVersion:U Round:U LatestTimestamp:U CurrentApplicationID:U CreatorAddress:B CurrentApplicationAddress:B GroupID:B OpcodeBudget:U CallerApplicationID:U CallerApplicationAddress:B
holding	AssetBalance:U AssetFrozen:U
asset	AssetTotal:U AssetDecimals:U AssetDefaultFrozen:U AssetUnitName:B AssetName:B AssetURL:B AssetMetadataHash:B AssetManager:B AssetReserve:B AssetFreeze:B AssetClawback:B AssetCreator:B
app	AppApprovalProgram:B AppClearStateProgram:B AppGlobalNumUint:U AppGlobalNumByteSlice:U AppLocalNumUint:U AppLocalNumByteSlice:U AppExtraProgramPages:U AppCreator:B AppAddress:B
acct	AcctBalance:U AcctMinBalance:U AcctAuthAddr:B AcctTotalNumUint:U AcctTotalNumByteSlice:U AcctTotalExtraAppPages:U AcctTotalAppsCreated:U AcctTotalAppsOptedIn:U AcctTotalAssetsCreated:U AcctTotalAssets:U AcctTotalBoxes:U AcctTotalBoxBytes:U
block	BlkSeed:B BlkTimestamp:U
`
