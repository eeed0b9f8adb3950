package nova

import (
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

func createsAccount(o iotago.Output) bool {
	b, is := o.(*iotago.BasicOutput)
	if !is {
		return false
	}
	a := b.UnlockConditionSet().Address()
	return a != nil && a.Address.Type() == iotago.AddressImplicitAccountCreation
}

// seenAs: how an output appears among the inputs: outputs which create accounts implicitly are treated as accounts.
func seenAs(o iotago.Output, in iotago.Output) bool {
	if createsAccount(o) {
		x, is := in.(*vm.ImplicitAccountOutput)
		return is && x != nil && x.BasicOutput == o.(*iotago.BasicOutput)
	}
	return g.SameIface(o, in)
}

//gvc:contract target=constructInputSet props=C04,C08 stable opaque=(*BasicOutput).UnlockConditionSet,iface:(Address).Type
func c_constructInputSet(s vm.InputSet) {
	g.Requires(g.ForallMap(s, func(id iotago.OutputID, o iotago.Output) bool {
		b, is := o.(*iotago.BasicOutput)
		return o != nil && (!is || b != nil && (b.UnlockConditionSet().Address() == nil || b.UnlockConditionSet().Address().Address != nil))
	}))
	set := constructInputSet(s)
	g.Ensures(g.ForallMap(s, func(id iotago.OutputID, o iotago.Output) bool {
		in, has := set[id]
		return has && seenAs(o, in)
	}), "every output to be consumed is among the inputs")
	g.Ensures(g.ForallMap(set, func(id iotago.OutputID, o iotago.Output) bool {
		_, has := s[id]
		return has
	}), "every input is an output to be consumed")
}

//gvc:invariant for=c_constructInputSet
func inv_constructInputSet1(inputSet vm.InputSet, utxoInputsSet vm.InputSet) bool {
	return g.VisitedForall(inputSet, func(id iotago.OutputID, o iotago.Output) bool {
		in, has := utxoInputsSet[id]
		return has && seenAs(o, in)
	})
}

//gvc:invariant for=c_constructInputSet
func inv_constructInputSet2(inputSet vm.InputSet, utxoInputsSet vm.InputSet) bool {
	return g.ForallMap(utxoInputsSet, func(id iotago.OutputID, o iotago.Output) bool {
		_, has := inputSet[id]
		return has
	})
}

func utxoInput(t *iotago.Transaction, i int) *iotago.UTXOInput {
	u, _ := t.TransactionEssence.Inputs[i].(*iotago.UTXOInput)
	return u
}

func sameInput(a, b iotago.Output) bool {
	x, is := a.(*vm.ImplicitAccountOutput)
	y, is2 := b.(*vm.ImplicitAccountOutput)
	return g.SameIface(a, b) || is && is2 && x != nil && y != nil && x.BasicOutput == y.BasicOutput
}

//gvc:contract target=NewVMParamsWorkingSet props=C03,C04,C05,C07,C08,C09,C10 stable opaque=vm/nova.constructInputSet,(*UTXOInput).OutputID,(*Transaction).ID,(vm.InputSet).ChainInputSet,(Outputs[T]).ChainOutputSet,vm.TotalManaIn,vm.TotalManaOut,iface:(API).ManaDecayProvider,iface:(API).StorageScoreStructure
func c_NewVMParamsWorkingSet(api iotago.API, t *iotago.Transaction, r vm.ResolvedInputs, chain iotago.ChainID) {
	g.Requires(api != nil && t != nil && t.TransactionEssence != nil)
	g.Requires(g.Forall(0, len(t.TransactionEssence.Inputs), func(i int) bool { return utxoInput(t, i) != nil }))
	ws, err := NewVMParamsWorkingSet(api, t, r)
	set := constructInputSet(r.InputSet)
	manaIn, e1 := vm.TotalManaIn(api.ManaDecayProvider(), api.StorageScoreStructure(), t.CreationSlot, set, r.RewardsInputSet)
	manaOut, e2 := vm.TotalManaOut(t.Outputs, t.Allotments)
	g.Ensures((err == nil) == (e1 == nil && e2 == nil), "the working set is complete iff the Mana of the inputs and outputs can be computed")
	if err == nil {
		g.Ensures(ws.TotalManaIn == manaIn && ws.TotalManaOut == manaOut, "the Mana of the inputs is computed for the transaction's slot, with the rewards, and that of the outputs with the allotments")
		g.Ensures(ws.Tx == t && len(ws.UTXOInputs) == len(t.TransactionEssence.Inputs), "there is one input per input of the transaction")
		g.Ensures(g.Forall(0, len(ws.UTXOInputs), func(i int) bool { return sameInput(ws.UTXOInputs[i], set[utxoInput(t, i).OutputID()]) }), "the inputs are those the transaction refers to")
		id, _ := t.ID()
		in, hasIn := ws.InChains[chain]
		wantIn, wants := set.ChainInputSet()[chain]
		g.Ensures(hasIn == wants && (!wants || in == wantIn || in != nil && wantIn != nil && in.OutputID == wantIn.OutputID && sameInput(in.Output, wantIn.Output)), "the chains on the input side are those of the inputs")
		out, hasOut := ws.OutChains[chain]
		wantOut, wants := t.Outputs.ChainOutputSet(id)[chain]
		g.Ensures(hasOut == wants && (!wants || g.SameIface(out, wantOut)), "the chains on the output side are those of the outputs")
		g.Ensures(g.Same(ws.BIC, r.BlockIssuanceCreditInputSet) && g.Same(ws.Rewards, r.RewardsInputSet) && ws.Commitment == r.CommitmentInput, "credits, rewards and the commitment are those resolved for the transaction")
	}
}

//gvc:invariant for=c_NewVMParamsWorkingSet
func inv_NewVMParamsWorkingSet1(workingSet *vm.WorkingSet, t *iotago.Transaction, utxoInputsSet vm.InputSet, inputIndex int) bool {
	return workingSet.Tx == t && len(workingSet.UTXOInputs) == inputIndex && g.Same(workingSet.UTXOInputsSet, utxoInputsSet)
}

//gvc:invariant for=c_NewVMParamsWorkingSet
func inv_NewVMParamsWorkingSet2(workingSet *vm.WorkingSet, t *iotago.Transaction, inputIndex int) bool {
	return g.Forall(0, inputIndex, func(k int) bool {
		return g.SameIface(workingSet.UTXOInputs[k], workingSet.UTXOInputsSet[utxoInput(t, k).OutputID()])
	})
}
