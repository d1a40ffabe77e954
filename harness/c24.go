//go:build verifcmd

package verifharness

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"io"
	"net/http"
	"strconv"
	"strings"

	"verifharness/cmdtool"
	"verifharness/sym"
	"verifharness/web"

	"github.com/tokenized/arc/pkg/tef"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
)

// answer is a response with the given body.
func answer(status int, body string) *http.Response {
	return &http.Response{StatusCode: status, Body: io.NopCloser(strings.NewReader(body))}
}

// chain is what the web service knows.
type chain struct {
	net     string
	hashes  []bitcoin.Hash32
	txs     []*wire.MsgTx
	unspent string
	script  bitcoin.Script
}

func (c *chain) serve(req *http.Request) (*http.Response, error) {
	path := req.URL.Path
	for i, h := range c.hashes {
		if strings.HasSuffix(path, "/bsv/"+c.net+"/tx/"+h.String()+"/hex") {
			var buf bytes.Buffer
			if err := c.txs[i].Serialize(&buf); err != nil {
				panic(err)
			}
			return answer(200, hex.EncodeToString(buf.Bytes())), nil
		}
	}
	if c.script != nil {
		h := bitcoin.Hash32(sha256.Sum256(c.script))
		if strings.HasSuffix(path, "/bsv/"+c.net+"/script/"+h.String()+"/unspent") {
			return answer(200, c.unspent), nil
		}
	}
	return answer(404, "not found"), nil
}

// printedTxs decodes the transactions in lines that start with the label.
func printedTxs(text, label string) [][]byte {
	var r [][]byte
	for _, line := range strings.Split(text, "\n") {
		if strings.HasPrefix(line, label) {
			b, err := hex.DecodeString(line[len(label):])
			sym.Assert(err == nil, "transactions are printed as hex")
			r = append(r, b)
		}
	}
	return r
}

// rates is a configuration with one of the pairs of fee and dust rate.
func rates() *cmdtool.Config {
	i := sym.Choose("fee", 3)
	return &cmdtool.Config{FeeRate: []float32{0.05, 0.5, 0.5}[i], DustFeeRate: []float32{0, 0, 1}[i]}
}

func network(cfg *cmdtool.Config) string {
	cfg.Network = bitcoin.MainNet
	if sym.Choose("net", 2) == 1 {
		cfg.Network = bitcoin.TestNet
		return "test"
	}
	return "main"
}

// checkPrinted asserts that the printed transaction spends exactly the given outputs with
// signatures by the key, has exactly the payments and then at most one change output, and has an
// adequate fee. It gives the transaction.
func checkPrinted(raw []byte, ins []inState, pays []outState, change bitcoin.Script, key bitcoin.Key, rate float32) *wire.MsgTx {
	msg := &wire.MsgTx{}
	sym.Assert(msg.Deserialize(bytes.NewReader(raw)) == nil, "the transaction decodes")
	sym.Assert(len(msg.TxIn) == len(ins), "exactly the given outpoints are spent")
	tx := txbuilder.NewTxBuilder(rate, 0)
	tx.MsgTx = msg
	in, out := uint64(0), uint64(0)
	for i, s := range ins {
		o := msg.TxIn[i].PreviousOutPoint
		sym.Assert(o.Hash == s.hash && o.Index == s.index, "the given outpoints are spent in order")
		tx.Inputs = append(tx.Inputs, &txbuilder.InputSupplement{LockingScript: s.script, Value: s.value})
		in += s.value
	}
	for i, s := range ins {
		checkUnlock(lock{script: s.script, required: 1, keys: []bitcoin.Key{key}, bare: !bytes.Equal(s.script, p2pkhOf(key))}, tx, i)
	}
	n := len(msg.TxOut)
	sym.Assert(n == len(pays) || n == len(pays)+1 && change != nil, "the outputs are the payment and change")
	for i, p := range pays {
		sym.Assert(sym.And(msg.TxOut[i].Value == p.value, bytes.Equal(msg.TxOut[i].LockingScript, p.script)), "the payment is what was asked")
	}
	if n > len(pays) {
		sym.Assert(bytes.Equal(msg.TxOut[n-1].LockingScript, change), "the rest goes back to the key")
	}
	for _, o := range msg.TxOut {
		sym.Assert(o.Value <= in, "no output is worth more than there is")
		out += o.Value
	}
	target := txbuilder.EstimatedFeeValue(uint64(len(raw)), float64(rate))
	sym.Assert(in >= out+target, "the fee is adequate")
	excess, limit := in-out-target, target/20
	if limit < 3 {
		limit = 3
	}
	if change != nil && n == len(pays) {
		limit += cost(change, rate) + txbuilder.LockingScriptOutputFee(change, rate)
	}
	sym.Assert(excess <= limit, "the rest is not left to the miner")
	return msg
}

// given makes two transactions with outputs of any value to the key, known to the web service, and
// gives 1 or 2 outpoints as arguments, the first of the first transaction. The flag is false when
// one is past the end or both are the same.
func given(c *chain, key bitcoin.Key, most int) (args []string, ins []inState, good bool) {
	scripts := []bitcoin.Script{p2pkhOf(key), p2pkOf(key)}
	for t := 0; t < most; t++ {
		msg := wire.NewMsgTx(1)
		for i := range scripts {
			msg.AddTxOut(wire.NewTxOut(sym.U64R(name(name("value", t), i), 0, maxMoney), scripts[(i+t)%2]))
		}
		msg.AddTxIn(wire.NewTxIn(&wire.OutPoint{Hash: hashOf(9), Index: 2}, []byte{1, 1}))
		c.hashes, c.txs = append(c.hashes, hashOf(byte(0x51+t))), append(c.txs, msg)
	}
	good = true
	n := 1 + sym.Choose("outpoints", most)
	for i := 0; i < n; i++ {
		t := 0
		if i == 1 {
			t = sym.Choose("tx", 2)
		}
		index := sym.Choose(name("index", i), 3)
		args = append(args, c.hashes[t].String()+":"+strconv.Itoa(index))
		if index == 2 || i == 1 && t == 0 && ins[0].index == uint32(index) {
			return args, ins, false
		}
		o := c.txs[t].TxOut[index]
		ins = append(ins, inState{hash: c.hashes[t], index: uint32(index), script: o.LockingScript, value: o.Value})
	}
	return args, ins, good
}

// C24_Send: 1 or 2 outpoints of one or two transactions with a public key hash and a public key
// output of any value, possibly past the end or the same; a payment of any amount, also negative, to another
// address or the key's own; fee rates 0.05 and 0.5, or 0.5 with dust rate 1; both networks.
func C24_Send() {
	sym.SigLens(70, 72)
	key, to := keyOf(0), keyOf(1)
	cfg := rates()
	c := &chain{net: network(cfg)}
	web.Serve(c.serve)
	own := sym.Choose("own", 2) == 1
	if own {
		to = key
	}
	ra, err := to.RawAddress()
	if err != nil {
		panic(err)
	}
	amount := sym.I64R("amount", -maxMoney, maxMoney)
	outpoints, ins, good := given(c, key, 2)
	args := append([]string{key.String(), bitcoin.NewAddressFromRawAddress(ra, cfg.Network).String(),
		strconv.FormatInt(amount, 10)}, outpoints...)
	text := sym.Capture(func() { cmdtool.CreateSend(context.Background(), cfg, args) })
	txs := printedTxs(text, "Tx Hex : ")
	if !good {
		sym.Assert(len(txs) == 0, "outpoints that cannot be spent give no transaction")
		sym.Reach("bad")
		return
	}
	// the same payment with the builder
	tx := txbuilder.NewTxBuilder(cfg.FeeRate, 0)
	for _, s := range ins {
		putIn(tx, s)
	}
	var pays []outState
	if !own {
		sym.Assert(amount >= 0 || len(txs) == 0, "a negative amount gives no transaction")
		if amount < 0 {
			sym.Reach("negative")
			return
		}
		pays = []outState{{value: uint64(amount), script: p2pkhOf(to)}}
		putOut(tx, pays[0])
	}
	if len(txs) == 0 {
		if amount < 0 {
			return
		}
		able := tx.InputValue() >= tx.OutputValue(true)+tx.EstimatedFee()
		sym.Assert(!able || !own && uint64(amount) < txbuilder.LockingScriptOutputFee(p2pkhOf(to), cfg.FeeRate),
			"a payment that can be made is made")
		sym.Reach("not made")
		return
	}
	sym.Assert(len(txs) == 1, "one transaction is made")
	msg := checkPrinted(txs[0], ins, pays, p2pkhOf(key), key, cfg.FeeRate)
	checkExtended(printedTxs(text, "Extended Tx Hex : "), txs, ins)
	if len(msg.TxOut) > len(pays) {
		sym.Reach("change")
	} else {
		sym.Reach("no change")
	}
	sym.Observe("outs", len(msg.TxOut))
}

// checkExtended asserts that the extended form is of the first transaction and its inputs.
func checkExtended(ext, raws [][]byte, ins []inState) {
	sym.Assert(len(ext) == len(raws), "each transaction has an extended form")
	etx, err := tef.Deserialize(bytes.NewReader(ext[0]))
	sym.Assert(err == nil, "the extended form decodes")
	var buf bytes.Buffer
	if err := etx.Tx.Serialize(&buf); err != nil {
		panic(err)
	}
	sym.Assert(bytes.Equal(buf.Bytes(), raws[0]), "the extended form is of the transaction")
	for i, s := range ins {
		o, err := etx.InputOutput(i)
		sym.Assert(err == nil, "the extended form has the spent outputs")
		sym.Assert(sym.And(o.Value == s.value, bytes.Equal(o.LockingScript, s.script)), "the extended form has the spent outputs")
	}
}

// C24_Sends: chains of 1 to 4 transactions from 1 outpoint of any value (thorough: or 2), fee rates
// 0.05 and 0.5, or 0.5 with dust rate 1.
func C24_Sends() {
	sym.SigLens(70, 72)
	key := keyOf(0)
	cfg := rates()
	cfg.Network = bitcoin.MainNet
	c := &chain{net: "main"}
	web.Serve(c.serve)
	count := 1 + sym.Choose("count", 4)
	most := 1
	if sym.Thorough() {
		most = 2
	}
	outpoints, ins, good := given(c, key, most)
	args := append([]string{strconv.Itoa(count), key.String()}, outpoints...)
	var text string
	crash := sym.Panics(func() {
		text = sym.Capture(func() { cmdtool.CreateSends(context.Background(), cfg, args) })
	})
	sym.Assert(!crash, "a chain that ends early does not crash")
	if crash {
		return
	}
	txs := printedTxs(text, "Tx Hex : ")
	if !good {
		sym.Assert(len(txs) == 0, "outpoints that cannot be spent give no transaction")
		sym.Reach("bad")
		return
	}
	sym.Assert(len(txs) <= count, "as many transactions as asked are made")
	ext := printedTxs(text, "Extended Tx Hex : ")
	sym.Assert(len(ext) == len(txs), "each transaction has an extended form")
	for i, raw := range txs {
		msg := checkPrinted(raw, ins, nil, p2pkhOf(key), key, cfg.FeeRate)
		checkExtended(ext[i:], txs[i:], ins)
		ins = nil
		if len(msg.TxOut) > 0 {
			ins = []inState{{hash: *msg.TxHash(), script: p2pkhOf(key), value: msg.TxOut[0].Value}}
		}
	}
	all := printedTxs(text, "Cumulative Extended Txs Hex : ")
	if len(txs) < count {
		tx := txbuilder.NewTxBuilder(cfg.FeeRate, 0)
		for _, s := range ins {
			putIn(tx, s)
		}
		sym.Assert(len(ins) == 0 || tx.InputValue() < tx.EstimatedFee(), "the chain goes on while there is value")
		sym.Assert(len(all) == 0, "a chain that ends early is not printed as a whole")
		sym.Reach("short")
		return
	}
	sym.Assert(len(all) == 1 && bytes.Equal(all[0], bytes.Join(ext, nil)), "the whole chain is printed")
	sym.Reach("all")
}

// unspent is the form of the web service.
type unspent struct {
	Height uint           `json:"height"`
	Pos    uint32         `json:"tx_pos"`
	Hash   bitcoin.Hash32 `json:"tx_hash"`
	Value  uint64         `json:"value"`
}

// C24_Consolidate: 0 to 2 unspent outputs of any value and index of one or two transactions, fee rates 0.05 and 0.5, or 0.5 with
// dust rate 1, both networks, the recipient given as address or script.
func C24_Consolidate() {
	sym.SigLens(70, 72)
	key, to := keyOf(0), keyOf(1)
	cfg := rates()
	c := &chain{net: network(cfg), script: p2pkhOf(key)}
	web.Serve(c.serve)
	n := sym.Choose("n", 3)
	var list []unspent
	var ins []inState
	in := uint64(0)
	for i := 0; i < n; i++ {
		u := unspent{Height: 5, Pos: sym.U32(name("pos", i)), Hash: hashOf(byte(i + 1)), Value: sym.U64R(name("in", i), 0, maxMoney)}
		if i == 1 && sym.Bool("same") {
			// of the same transaction
			u.Hash = hashOf(1)
			sym.Assume(u.Pos != list[0].Pos)
		}
		list = append(list, u)
		ins = append(ins, inState{hash: u.Hash, index: u.Pos, script: p2pkhOf(key), value: u.Value})
		in += u.Value
	}
	b, err := json.Marshal(list)
	if err != nil {
		panic(err)
	}
	c.unspent = string(b)
	args := []string{key.String()}
	if sym.Choose("form", 2) == 0 {
		ra, err := to.RawAddress()
		if err != nil {
			panic(err)
		}
		args = append(args, bitcoin.NewAddressFromRawAddress(ra, cfg.Network).String())
	} else {
		args = append(args, strings.Split(p2pkhOf(to).String(), " ")...)
	}
	text := sym.Capture(func() { cmdtool.Consolidate(context.Background(), cfg, args) })
	txs := printedTxs(text, "Tx Hex : ")
	if len(txs) == 0 {
		tx := txbuilder.NewTxBuilder(cfg.FeeRate, 0)
		for _, s := range ins {
			putIn(tx, s)
		}
		least := txbuilder.DustLimitForLockingScript(p2pkhOf(to), cfg.DustFeeRate)
		putOut(tx, outState{value: least, script: p2pkhOf(to)})
		sym.Assert(in < least+tx.EstimatedFee(), "what can be consolidated is")
		sym.Reach("not made")
		return
	}
	sym.Assert(len(txs) == 1, "one transaction is made")
	msg := &wire.MsgTx{}
	sym.Assert(msg.Deserialize(bytes.NewReader(txs[0])) == nil && len(msg.TxOut) == 1, "everything goes to one output")
	checkPrinted(txs[0], ins, []outState{{value: msg.TxOut[0].Value, script: p2pkhOf(to)}}, nil, key, cfg.FeeRate)
	sym.Reach("made")
}
