#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (one place to edit statements).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

p("C01","Inputs stay paired with their spent outputs and are never duplicated",
"After any history of adding, inserting, updating and removing inputs, every transaction input sits at the index the caller asked for and is paired at that index with exactly the locking script, value and key ID supplied for its outpoint. No outpoint is ever spent twice: an operation that would introduce a duplicate is rejected with the duplicate-input error. An operation that is rejected (duplicate, or an index past the end) returns an error and leaves the transaction and its input data exactly as they were.",
["inputs","histories"],"all outpoints (hash and index), scripts, values, key IDs, positions, and every history of input operations from any consistent state",
"Tests add a handful of inputs with distinct random hashes; duplicates, near-duplicates (same hash, other index), insertion positions and failing calls are not sampled.",
["inputs.go"],[("AddInputUTXO/AddInput/InsertInput duplicate scan and parallel append","inputs.go"),("UpdateInputUTXO in-place update","inputs.go"),("RemoveInput parallel splice","inputs.go")],
["TxBuilder.MsgTx.TxIn","TxBuilder.Inputs","returned error"],
[dict(name="Inputs / MsgTx.TxIn",meaning="parallel slices",where="txbuilder.go")])

p("C02","Output edits change exactly the addressed output, by the documented rule",
"After any history of adding, inserting, removing, re-scripting and re-valuing outputs, each transaction output stays paired with its own flags and key ID, and every output other than the one addressed is untouched. A dust output gets exactly the dust limit for its script; adding value to a dust output replaces the dust amount, otherwise amounts add; subtracting value never takes an output below its dust limit or wraps around; a spendable non-dust output worth less than its own output fee is refused; setting the change script marks exactly the outputs paying it as change. A rejected edit (including an index past the end or an address that is not set) returns an error and changes nothing, including the send-max and change settings.",
["inputs","histories"],"all values, scripts, flags, rates, positions, and every history of output edits from any consistent state",
"Tests use a few fixed amounts well above dust; boundary values (below dust, exactly dust, off by one), index ends and failing edits are unsampled.",
["outputs.go","break_value.go"],[("AddOutput/InsertOutput below-dust rule","outputs.go"),("AddValueToOutput, SubtractValueFromOutput, SetOutputToDust, UpdateOutput","outputs.go"),("SetChangeLockingScript marks matching outputs","outputs.go"),("AddOutputs bulk append","break_value.go")],
["TxBuilder.MsgTx.TxOut","TxBuilder.Outputs","returned error"])

p("C03","Randomizing outputs is a pure permutation of whole outputs",
"Randomizing the outputs of a transaction, or only those after a given index, yields a reordering of the original outputs in which every output keeps its own value, script, flags and key ID. Outputs at or before the given index stay in place. This holds for every sequence of random choices.",
["inputs","schedules"],"all output contents and metadata, all counts up to the bound, all start indexes and all random choices",
"The tests compare scripts only, for a few random draws; metadata misalignment shows only when metadata differs between outputs.",
["break_value.go"],[("RandomizeOutputs","break_value.go"),("RandomizeOutputsAfter","break_value.go")],["TxBuilder.MsgTx.TxOut","TxBuilder.Outputs"])

p("C04","Breaking a value conserves it for every random draw",
"Breaking a value over a list of addresses or locking scripts never creates or loses satoshis: when fees are taken from the value, the outputs plus the fee for each output add up to the value, otherwise the outputs alone add up to it, except that nothing is produced when the whole value is too small to be worth an output. Each output pays a different one of the given destinations, in number at most the number given, with its key ID, and is worth more than it costs to spend or at least nine tenths of the break value; at most one output carries the remainder flag, and it does exactly when requested. It never panics for a positive break value and at least one destination.",
["inputs","schedules"],"all values up to the money supply, all positive break values, destination counts up to the bound, fee rates, flags, and all random draws",
"Tests draw a few random sequences for 15 values with one break value and one rate; tiny break values, single destinations and exact boundaries are unsampled.",
["break_value.go"],[("BreakValue","break_value.go"),("BreakValueLockingScripts","break_value.go")],["returned outputs"])

p("C05","Breaking a quantity conserves it for every random draw",
"Breaking a quantity (below 2^59) into randomized parts returns parts that are all positive and add up to exactly the original quantity, never more parts than the requested count plus one for the remainder, for every sequence of random draws. It never panics for a positive break value and a positive count.",
["inputs","schedules"],"all quantities (below 2^59 for the parts being positive), positive break values, counts up to the bound and all random draws",
"There is no test of it at all.",
["break_value.go"],[("BreakQuantity","break_value.go")],["returned quantities"])

p("C06","Fee and dust arithmetic is exact",
"The fee for a size at a rate is the exact product rounded up to a whole satoshi (or down for the reclaimable-value variant), never off by one for any size or rate. The dust limit of an output is three times the size of the output plus a standard input times the dust rate (the builder rounds it down and works in single precision, the standalone version rounds it up), never below one satoshi and non-decreasing in size. All per-output, per-input, per-address and per-script cost helpers return exactly the fee of the corresponding serialized size.",
["inputs"],"all sizes and all fee rates within the stated ranges",
"Tests check a dozen (size, rate) pairs; rounding and truncation errors appear only at particular products.",
["fees.go","outputs.go","inputs.go","fees/fees.go"],[("EstimatedFeeValue / EstimatedFeeValueDown","fees.go"),("DustLimit*","outputs.go"),("OutputFeeAndDustForLockingScript, OutputTotalCost, UTXOFee, LockingScriptInputFee, AddressOutputFee","outputs.go, inputs.go"),("fees.EstimateFeeValue, fees.DustLimit, fees.OutputTotalCost","fees/fees.go")],["returned fee values"])

p("C07","Size estimates are exact for outputs and never low for signed inputs",
"The computed size of a variable length integer, an output and an input equals its serialized size, across every encoding boundary. For every transaction whose inputs use the supported templates (pay to public key, to public key hash, to multiple public key hashes, agent transfer), the estimated size is at least the size after signing with any signatures, and equals it when every signature has maximum length; for agent transfers the unlocking estimate is the preimage proof plus the agent's own estimate plus two. Unsupported scripts are reported as errors by the per-script estimate and never crash it.",
["inputs"],"all script lengths across var-int boundaries, all input/output counts in bound, all signature lengths up to the maximum",
"Tests sign with a few random keys; the estimate must dominate every possible signature length and every count boundary.",
["fees.go","fees/fees.go"],[("UnlockingScriptSize, InputSize, OutputSize, VarIntSerializeSize, EstimatedSize","fees.go"),("EstimateUnlockingSize, EstimateInputSize, EstimateSize","fees/fees.go")],["returned sizes vs serialized length"])

p("C08","Fee adjustment moves value only between change and fee",
"Adjusting the fee by an amount never touches any output other than the change output, and never creates or destroys value. Raising the fee takes exactly the amount from the first change output, fails with the insufficient-value error when that output cannot cover it (leaving the transaction unchanged), and drops an output only if an earlier adjustment had added it and it fell below the cost of creating and spending it. Lowering the fee adds exactly the amount to the change output, or adds a new change output paying the change script with its own fee deducted, or leaves the amount with the miner when it is not worth an output.",
["inputs","histories"],"all transactions in bound, all signed amounts, all rates, with zero, one or several change outputs, change script present or absent",
"Tests hit three or four amounts; the branches meet at exact boundaries and depend on combinations of flags.",
["fees.go"],[("AdjustFee","fees.go"),("ZeroizeFee","fees.go")],["TxBuilder.MsgTx.TxOut","TxBuilder.Outputs","Fee()"])

p("C09","Fee totals equal inputs minus outputs and calculation reaches the target",
"The reported fee is the sum of input values minus the sum of output values (zero, or negative in the signed variant, when outputs exceed inputs), counting embedded unlocking data for inputs whose output is unknown. When fee calculation succeeds, the fee equals the estimated fee for the resulting transaction, or exceeds it by no more than the cost threshold below which change is not worth creating and no change output exists; it fails with insufficient value only if outputs plus fee exceed inputs or change cannot cover it.",
["inputs"],"all values, rates and output sets in bound, with and without change outputs and embedded unlocking data",
"Tests use fixed amounts; exact target is a relation over all amounts and rates.",
["fees.go","fees/fees.go"],[("Fee, ActualFee, InputValue, OutputValue, Remainder","fees.go"),("CalculateFee","fees.go"),("fees.Fee, fees.InputsValue, fees.OutputsValue","fees/fees.go")],["Fee()","ActualFee()","InputValue()"])

p("C10","A successfully funded transaction pays its fee and keeps its payments",
"When funding succeeds, inputs cover outputs plus at least the estimated fee of the resulting transaction, and the excess over the estimated fee, apart from rounding up each added input's fee, is at most the larger of dust limit and output fee plus the output fee, below which change is not worth keeping. Every output present before keeps its script, and its value unless it is the change output that receives the leftover; at most one change output is added, paying the change script. Inputs are added in the order offered, skipping outpoints already spent, and no more than needed.",
["inputs","histories"],"all UTXO lists in bound (values, duplicates, scripts), all outputs, all rates, change script present or absent, already funded or not",
"Tests fund a few sets with fixed values; the guarantee ranges over all value combinations and rounding.",
["inputs.go"],[("AddFunding","inputs.go"),("AddInputUTXO","inputs.go"),("CalculateFee","fees.go")],["MsgTx","Fee()","EstimatedFee()"])

p("C11","Funding succeeds whenever the offered coins suffice",
"If the offered unspent outputs are worth enough to cover the outputs, the estimated fee and the fees of the inputs added, funding does not fail for lack of value or because the leftover is too small; when a change script is configured it succeeds. If they are not worth enough, beyond the rounding up of each input's fee, it fails with the insufficient-value error. If leftover change is worth keeping and no change script is configured it fails with the change-address-needed error.",
["inputs"],"all UTXO lists in bound, outputs, rates and change configurations",
"Failures appear only in narrow windows of leftover value just around dust and output cost.",
["inputs.go","outputs.go"],[("AddFunding","inputs.go"),("AddOutput below-dust rule","outputs.go")],["returned error"])

p("C12","Sending the maximum spends everything offered minus the fee",
"With a maximum output, funding adds every offered unspent output exactly once and leaves the maximum output with all input value minus the other outputs and exactly the estimated fee. If that cannot be met it fails with the insufficient-value error.",
["inputs"],"all UTXO lists in bound (with duplicates), other outputs and rates",
"One test with one fixed value set.",
["inputs.go","outputs.go"],[("AddMaxOutput / AddMaxScriptOutput","outputs.go"),("AddFunding SendMax branch","inputs.go")],["MsgTx","Fee()"])

p("C13","Funding with broken-up change is funded, conserving and complete",
"When funding with broken-up change succeeds, inputs cover outputs plus at least the estimated fee of the resulting transaction, payments are untouched, an existing remainder output receives all of the change, and otherwise new change outputs pay distinct given addresses. The fee excess is bounded by the cost threshold below which change is not worth creating plus rounding of one satoshi per change output. If the offered coins suffice including the fee of one change output it does not fail with insufficient value, without a remainder output and without addresses it reports that a change address is needed, and it does not panic.",
["inputs","schedules"],"all UTXO lists in bound, outputs, break values, rates, address counts, already funded or not, and all random draws",
"Tests use fixed sets at one rate and one break value; partially funded starts sit in a narrow window.",
["inputs.go","break_value.go"],[("AddFundingBreakChange","inputs.go"),("BreakValue","break_value.go")],["MsgTx","Fee()","EstimatedFee()"])

p("C14","Signing succeeds only with an adequate, not excessive, fee",
"When signing reports success, the fee is at least the target rate times the actual signed size, and is above it by no more than five percent, three satoshis, or the value too small to be returned as change. Value leaves or enters only through the change output; every other output keeps its value and script. When inputs cannot cover outputs and fee, signing fails with the insufficient-value error, and when keys are missing the fee stays at least at the estimate for the complete transaction.",
["inputs","schedules"],"all values, rates and change configurations in bound, and all signature lengths on every signing round",
"Signature lengths are pseudo-random and vary per round; tests see a few draws.",
["sign.go","fees.go"],[("Sign adjustment loop","sign.go"),("AdjustFee","fees.go")],["Fee()","MsgTx.SerializeSize()"])

p("C15","Every signature commits to the final transaction with the right key",
"After signing succeeds, each input's unlocking script consists of a signature by a key matching that input's locking script, over the signature hash of the final transaction for that input's script and value, in the layout the template requires. When a key is missing the missing-key error is returned, the inputs whose keys are present are still signed, and exactly the keys used are returned, each once. Signing only leaves outputs and already present unlocking scripts untouched.",
["inputs","schedules"],"all mixes of supported templates in bound, key orders and subsets, values, and all signature lengths forcing re-signing",
"Tests verify by running once; a stale digest appears only when a fee adjustment happens after a signature.",
["sign.go","sig_hash.go"],[("Sign, SignOnly, SignP2PKHInput, signInput","sign.go"),("P2PKHUnlockingScript, P2PKUnlockingScript, P2MultiPKHUnlockingScript, InputSignature","sign.go"),("SigHashCache.ClearOutputs","sig_hash.go")],["MsgTx.TxIn[i].UnlockingScript","returned keys"])

p("C16","The signature hash preimage follows the specified digest algorithm",
"For every transaction, input index, locking script, value and defined signature hash type, the bytes hashed for signing are exactly those of the fork-id digest algorithm: version, previous-outputs hash, sequence hash, outpoint, script from after the last code separator, value, sequence, outputs hash, lock time, type, with each hash zeroed or narrowed as the type prescribes. An input index past the end is an error. The signature hash is the double SHA-256 of that preimage.",
["inputs"],"all field values, counts in bound, all combinations of all/none/single with anyone-can-pay, scripts with and without separators",
"Tests compare a few known vectors, nearly all of type ALL; type/index combinations and unusual push encodings after a separator are unsampled.",
["sig_hash.go"],[("writeSignatureHashPreimageBytes","sig_hash.go"),("afterOpCodeSeparator","sig_hash.go")],["SignatureHashPreimageBytes","SignatureHash"])

p("C17","Reusing a signature hash cache never changes a digest",
"Computing signature hashes for any sequence of inputs and hash types of an unchanged transaction with one shared cache gives the same results as computing each with a fresh cache. After outputs change, clearing outputs restores that equality; after anything changes, clearing everything does.",
["inputs","histories"],"all sequences of digests within the bound over inputs and hash types, all field values, all edits between",
"Tests use one cache over one transaction without edits.",
["sig_hash.go"],[("SigHashCache.HashPrevOuts/HashSequence/HashOutputs","sig_hash.go"),("Clear, ClearOutputs","sig_hash.go")],["SignatureHash result"])

p("C18","A copy of a builder is equal to and independent of the original",
"Copying a transaction builder gives one with equal contents in every field, including inputs, outputs, their metadata, change settings and rates. Afterwards no modification of either, at any depth, is visible in the other.",
["inputs","histories"],"all builder contents in bound and any modification of any reachable field or byte",
"No test covers copying.",
["txbuilder.go"],[("TxBuilder.Copy, InputSupplement.Copy, OutputSupplement.Copy, CopyString","txbuilder.go")],["fields of both builders"])

p("C19","Importing a transaction pairs each input with the output it spends",
"Building from an existing transaction together with its input transactions, spent outputs, or a transaction carrying them, gives every input the locking script and value (and key ID where given) of exactly the output its outpoint references, and one metadata entry per output. If any input's output is not supplied, the missing-input-data error (or the source's error) is reported, another output's data is never used, and a builder returned along with it can be used without crashing.",
["inputs"],"all transactions and supplied sets in bound, any order, with missing, extra, and near-matching entries",
"No test supplies missing or near-matching entries.",
["txbuilder.go"],[("NewTxBuilderFromWire","txbuilder.go"),("NewTxBuilderFromWireUTXOs","txbuilder.go"),("NewTxBuilderFromTransactionWithOutputs","txbuilder.go")],["TxBuilder.Inputs","returned error"])

p("C20","Serialization and accessors describe the same transaction",
"The serialized bytes decode to a transaction with the same version, inputs, outputs and lock time, have the length the size computation reports, and hash to the reported transaction ID. The count, per-index and spent-output accessors and the address accessors return the values held at that index, or an error past the end or when the spent output is unknown.",
["inputs"],"all transactions in bound",
"Tests round-trip a few fixed transactions.",
["txbuilder.go","inputs.go","outputs.go","sign.go"],[("Serialize, TxID, InputCount, Input, InputOutput, OutputCount, Output","txbuilder.go"),("InputAddress, OutputAddress, InputIsSigned, AllInputsAreSigned","inputs.go, outputs.go, sign.go")],["returned values"])

p("C21","Unidentified inputs are valued and sized by their embedded unlocking data",
"For an input whose spent output is unknown but whose unlocking script embeds unlocking data, both the builder and the standalone fee functions count exactly the embedded value as input value and exactly the embedded size as the unlocking script size. Known outputs take precedence over embedded data. When neither is available, or the data is malformed, the standalone functions report the missing-unlocking-data error and the builder counts no value and the size of a public key hash input.",
["inputs"],"all embedded sizes and values in bound, mixes of known and unknown inputs, malformed data",
"No test covers embedded unlocking data.",
["fees.go","fees/fees.go"],[("InputValue, EstimatedSize","fees.go"),("fees.InputValue, fees.EstimateInputSize","fees/fees.go")],["returned values"])

p("C22","Standalone fee estimation agrees with the builder and never crashes",
"The standalone fee functions and the builder give the same unlocking size, output size, output cost and transaction size for every supported script and transaction. For scripts of unknown template the standalone unlocking-size and output-cost functions return an error together with the output fee, and never panic.",
["inputs"],"all supported templates and arbitrary unknown scripts in bound, all rates",
"There are no tests of the standalone package.",
["fees/fees.go","fees.go"],[("fees.EstimateUnlockingSize, fees.OutputTotalCost, fees.EstimateSize, fees.EstimateFee","fees/fees.go")],["returned values"])

p("C23","The printed summary reports the transaction's true totals",
"The text summary of a transaction with spent outputs reports as fee exactly the input total minus the output total (or the negative of it), with those totals, and reports an estimated size equal to the size the builder estimates (counting inputs already signed at their actual size when the output is not known), omitting either when an input's value or size is unknown. It also states every known value, the lock time and, when fee and size are known, the fee divided by the size as fee rate. The text of a builder states the exact value of every input and output, their key IDs and flags, and the builder's fee and sizes.",
["inputs"],"all transactions in bound with known, embedded and unknown inputs",
"No test covers the summary.",
["print.go"],[("TxString","print.go")],["returned text"])

p("C24","The command line tool pays what was asked and returns the rest",
"The send command prints a signed transaction that spends exactly the given outpoints, pays exactly the requested amount to the recipient and the rest, minus an adequate and not excessive fee, to the key's own address; it prints none when an outpoint or the amount is not valid, and prints one whenever the value suffices. The chain command prints transactions that each spend the first output of the one before and return everything minus the fee to the key, as many as asked or until too little value is left, without crashing. The consolidate command sends all unspent outputs of the key minus the fee to the recipient.",
["inputs"],"all amounts and values of the spent outputs, every choice of outpoints within the bounds",
"No test covers the command; it fetches what it spends from a web service.",
["cmd/main.go"],[("CreateSend, CreateSends, Consolidate","cmd/main.go")],["printed transaction"])
p("C25","A funded transaction can be signed and comes out as it was built",
"When funding a transaction (plainly, for the maximum, or with broken-up change) succeeds, signing it with the keys of the coins does not fail for lack of value, and fails for lack of a change address only when there is neither change nor a change script. The signed transaction then has every payment with its value in the order added, spends the funded inputs with signatures that commit to it, has no output but the payments and change to the given scripts, and pays a fee that is adequate for its size and with change not excessive. The same holds when the transaction, signed or not, gets another payment, is funded again and signed again.",
["histories"],"all histories of paying, funding and signing within the bounds, all values of payments and coins, all lengths of the signatures in every round",
"Funding works on estimates and signing on actual sizes and on change it may add; whether they agree depends on values within a few satoshis of a threshold and on random signature lengths.",
["inputs.go","sign.go","fees.go","break_value.go"],[("AddFunding, AddFundingBreakChange","inputs.go"),("Sign","sign.go"),("AdjustFee, EstimatedSize","fees.go")],["outputs, inputs, unlocking scripts and fee after signing"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
