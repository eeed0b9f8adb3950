package vm

import (
	"bytes"
	"sort"

	iotago "github.com/iotaledger/iota.go/v4"
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

//gvc:gen
func gen_InputSet(r *g.Rand) InputSet {
	s := InputSet{}
	for i := r.Intn(5); i > 0; i-- {
		o := g.Gen[iotago.Output](r)
		if b, is := o.(*iotago.BasicOutput); is && len(b.UnlockConditions) > 0 && r.Intn(4) == 0 {
			a := &iotago.ImplicitAccountCreationAddress{}
			a[0] = byte(r.Intn(3))
			b.UnlockConditions[0] = &iotago.AddressUnlockCondition{Address: a}
			o = &ImplicitAccountOutput{BasicOutput: b}
		}
		s[g.Gen[iotago.OutputID](r)] = o
	}
	return s
}

// a transaction and the inputs it spends.
//
//gvc:gen
func gen_WorkingSet(r *g.Rand) *WorkingSet {
	ws := &WorkingSet{UTXOInputsSet: gen_InputSet(r), Tx: g.Gen[*iotago.Transaction](r), InputIDToInputIndex: map[iotago.OutputID]uint16{}}
	ws.Tx.TransactionEssence.Inputs = nil
	var ids []iotago.OutputID
	for id := range ws.UTXOInputsSet {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, k int) bool { return bytes.Compare(ids[i][:], ids[k][:]) < 0 })
	for _, id := range ids {
		o := ws.UTXOInputsSet[id]
		ws.InputIDToInputIndex[id] = uint16(len(ws.Tx.TransactionEssence.Inputs))
		ws.Tx.TransactionEssence.Inputs = append(ws.Tx.TransactionEssence.Inputs, id.UTXOInput())
		ws.UTXOInputs = append(ws.UTXOInputs, o)
		// most inputs continue in an output
		if r.Intn(2) == 0 {
			n := o.Clone()
			if x, is := n.(*iotago.AccountOutput); is {
				if x.AccountID.Empty() {
					x.AccountID = iotago.AccountIDFromOutputID(id)
				}
				if r.Intn(2) == 0 {
					x.FoundryCounter += uint32(r.Intn(2))
				}
			}
			ws.Tx.Outputs = append(ws.Tx.Outputs, n)
		}
	}
	if r.Intn(3) == 0 {
		// mostly balanced
		if r.Intn(2) == 0 {
			ws.Tx.Outputs = nil
		}
		if r.Intn(2) == 0 {
			// several inputs owe to one address, which is paid with a single output
			ret := &iotago.Ed25519Address{byte(r.Intn(2))}
			var sum, most iotago.BaseToken
			for i := 0; i < 1+r.Intn(3); i++ {
				a := iotago.BaseToken(r.Intn(1 << 20))
				o := &iotago.BasicOutput{Amount: a + iotago.BaseToken(r.Intn(100)), UnlockConditions: iotago.BasicOutputUnlockConditions{
					&iotago.AddressUnlockCondition{Address: &iotago.Ed25519Address{byte(r.Intn(4))}}, &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: ret, Amount: a}}}
				id := g.Gen[iotago.OutputID](r)
				if ws.UTXOInputsSet[id] != nil {
					continue
				}
				ws.UTXOInputsSet[id] = o
				ws.InputIDToInputIndex[id] = uint16(len(ws.UTXOInputs))
				ws.Tx.TransactionEssence.Inputs = append(ws.Tx.TransactionEssence.Inputs, id.UTXOInput())
				ws.UTXOInputs = append(ws.UTXOInputs, o)
				sum += a
				most = max(most, a)
			}
			pay := []iotago.BaseToken{sum, sum + 1, most, sum - 1}[r.Intn(4)]
			ws.Tx.Outputs = append(ws.Tx.Outputs, &iotago.BasicOutput{Amount: pay, UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: ret}}})
		} else {
			for _, o := range ws.UTXOInputs {
				if sdr := o.UnlockConditionSet().StorageDepositReturn(); sdr != nil && r.Intn(4) > 0 {
					sdr.Amount = iotago.BaseToken(r.Intn(1 << 20))
					b := &iotago.BasicOutput{Amount: sdr.Amount, UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: sdr.ReturnAddress}}}
					if r.Intn(5) == 0 {
						b.Amount++
					}
					if r.Intn(5) == 0 {
						b.Amount--
					}
					if r.Intn(5) == 0 {
						b.Features = iotago.BasicOutputFeatures{&iotago.TagFeature{Tag: []byte{1}}}
					}
					if r.Intn(5) == 0 {
						b.UnlockConditions = append(b.UnlockConditions, &iotago.TimelockUnlockCondition{Slot: 5})
					}
					ws.Tx.Outputs = append(ws.Tx.Outputs, b)
				}
			}
		}
		var in, out iotago.BaseToken
		for _, o := range ws.UTXOInputs {
			in += o.BaseTokenAmount()
		}
		for _, o := range ws.Tx.Outputs {
			out += o.BaseTokenAmount()
		}
		if in > out {
			ws.Tx.Outputs = append(ws.Tx.Outputs, &iotago.BasicOutput{Amount: in - out, UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: g.Gen[iotago.Address](r)}}})
		}
	}
	func() {
		defer func() { recover() }()
		ws.InChains = ws.UTXOInputsSet.ChainInputSet()
	}()
	func() {
		defer func() { recover() }()
		id, _ := ws.Tx.ID()
		ws.OutChains = ws.Tx.Outputs.ChainOutputSet(id)
	}()
	if r.Intn(4) > 0 {
		ws.Commitment = &iotago.Commitment{Slot: g.Gen[iotago.SlotIndex](r)}
	}
	ws.BIC = g.Gen[BlockIssuanceCreditInputSet](r)
	ws.Rewards = g.Gen[RewardsInputSet](r)
	ws.UnlockedAddrs = UnlockedAddresses{}
	for _, o := range ws.UTXOInputs {
		if uc := o.UnlockConditionSet().Address(); uc != nil && r.Intn(2) == 0 {
			ws.UnlockedAddrs[uc.Address.Key()] = &UnlockedAddress{Address: uc.Address}
		}
	}
	ws.TotalManaIn, ws.TotalManaOut = g.Gen[iotago.Mana](r), g.Gen[iotago.Mana](r)
	return ws
}

//gvc:gen
func gen_Params(r *g.Rand) *Params {
	ws := gen_WorkingSet(r)
	return &Params{API: ws.Tx.API, WorkingSet: ws}
}
