package vm

import (
	iotago "github.com/iotaledger/iota.go/v4"
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

func specAmount(o iotago.Output) g.Int { return g.N(o.BaseTokenAmount()) }

// specOwed: the amount input id has to return to the address with the given key.
func specOwed(ws *WorkingSet, id iotago.OutputID, in iotago.Output, key string) g.Int {
	ret := in.UnlockConditionSet().StorageDepositReturn()
	if ret == nil || ret.ReturnAddress.Key() != key || ws.UnlockedAddrs.UnlockedBy(ws.InputIDToInputIndex[id], key) {
		return g.K(0)
	}
	return g.N(ret.Amount)
}

// specPlain: the amount output o transfers to the address with the given key without any conditions or features.
func specPlain(o iotago.Output, key string) g.Int {
	b, is := o.(*iotago.BasicOutput)
	if !is || len(b.Features) != 0 || len(b.UnlockConditions) != 1 || b.Owner().Key() != key {
		return g.K(0)
	}
	return g.N(o.BaseTokenAmount())
}

//gvc:contract target=ExecFuncBalancedBaseTokens props=C03 opaque=iface:(Address).Key,iface:(Output).UnlockConditionSet,iface:(Output).BaseTokenAmount,(UnlockedAddresses).UnlockedBy
func c_ExecFuncBalancedBaseTokens(p *Params, to iotago.Address) {
	g.Requires(to != nil)
	key := to.Key()
	g.Requires(p != nil && p.WorkingSet != nil && p.WorkingSet.Tx != nil && p.WorkingSet.Tx.TransactionEssence != nil)
	ws := p.WorkingSet
	g.Requires(g.ForallMap(ws.UTXOInputsSet, func(id iotago.OutputID, in iotago.Output) bool { return in != nil }))
	g.Requires(g.Forall(0, len(ws.Tx.Outputs), func(i int) bool { return ws.Tx.Outputs[i] != nil }))
	sumIn := g.SumMap(ws.UTXOInputsSet, func(id iotago.OutputID, in iotago.Output) g.Int { return specAmount(in) })
	sumOut := g.Sum(0, len(ws.Tx.Outputs), func(i int) g.Int { return specAmount(ws.Tx.Outputs[i]) })
	owed := g.SumMap(ws.UTXOInputsSet, func(id iotago.OutputID, in iotago.Output) g.Int { return specOwed(ws, id, in, key) })
	paid := g.Sum(0, len(ws.Tx.Outputs), func(i int) g.Int { return specPlain(ws.Tx.Outputs[i], key) })
	g.Requires(sumIn.Lt(g.Pow2(64)) && sumOut.Lt(g.Pow2(64)) && owed.Lt(g.Pow2(64)))
	err := ExecFuncBalancedBaseTokens()(nil, p)
	g.Ensures(g.Implies(err == nil, sumIn.Eq(sumOut)), "base tokens on the input and the output side are equal")
	g.Ensures(g.Implies(err == nil, owed.Le(paid)), "storage deposits are returned in full to every return address")
	g.Ensures(g.Implies(err != nil && sumIn.Eq(sumOut), g.ExistsMap(ws.UTXOInputsSet, func(id iotago.OutputID, in iotago.Output) bool {
		return in.UnlockConditionSet().StorageDepositReturn() != nil
	})), "a balanced transaction that has nothing to return is accepted")
}

//gvc:invariant for=c_ExecFuncBalancedBaseTokens
func inv_BaseTokens1(vmParams *Params, in iotago.BaseToken, inputSumReturnAmountPerAddress map[string]iotago.BaseToken, to iotago.Address) bool {
	return g.N(in).Eq(g.VisitedSum(vmParams.WorkingSet.UTXOInputsSet, func(id iotago.OutputID, o iotago.Output) g.Int { return specAmount(o) }))
}

//gvc:invariant for=c_ExecFuncBalancedBaseTokens
func inv_BaseTokens1b(vmParams *Params, inputSumReturnAmountPerAddress map[string]iotago.BaseToken, to iotago.Address) bool {
	return g.N(inputSumReturnAmountPerAddress[to.Key()]).Eq(g.VisitedSum(vmParams.WorkingSet.UTXOInputsSet, func(id iotago.OutputID, o iotago.Output) g.Int {
		return specOwed(vmParams.WorkingSet, id, o, to.Key())
	}))
}

//gvc:invariant for=c_ExecFuncBalancedBaseTokens
func inv_BaseTokens1c(vmParams *Params, inputSumReturnAmountPerAddress map[string]iotago.BaseToken) bool {
	return g.ForallMap(inputSumReturnAmountPerAddress, func(k string, v iotago.BaseToken) bool { return false }) || !g.VisitedForall(vmParams.WorkingSet.UTXOInputsSet, func(id iotago.OutputID, o iotago.Output) bool {
		return o.UnlockConditionSet().StorageDepositReturn() == nil
	})
}

//gvc:invariant for=c_ExecFuncBalancedBaseTokens
func inv_BaseTokens2(vmParams *Params, out iotago.BaseToken, i int) bool {
	return g.N(out).Eq(g.Sum(0, i, func(k int) g.Int { return specAmount(vmParams.WorkingSet.Tx.Outputs[k]) }))
}

//gvc:invariant for=c_ExecFuncBalancedBaseTokens
func inv_BaseTokens2b(vmParams *Params, outputSimpleTransfersPerAddr map[string]iotago.BaseToken, out iotago.BaseToken, to iotago.Address, i int) bool {
	return outputSimpleTransfersPerAddr[to.Key()] <= out && g.N(outputSimpleTransfersPerAddr[to.Key()]).Eq(g.Sum(0, i, func(k int) g.Int { return specPlain(vmParams.WorkingSet.Tx.Outputs[k], to.Key()) }))
}

//gvc:invariant for=c_ExecFuncBalancedBaseTokens
func inv_BaseTokens3(inputSumReturnAmountPerAddress map[string]iotago.BaseToken, outputSimpleTransfersPerAddr map[string]iotago.BaseToken) bool {
	return g.VisitedForall(inputSumReturnAmountPerAddress, func(k string, v iotago.BaseToken) bool { return v <= outputSimpleTransfersPerAddr[k] })
}
