package vm

import (
	"math/big"

	iotago "github.com/iotaledger/iota.go/v4"
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// tokenBalanced: what a transaction consumes of a token whose foundry does not take part is at least what it produces,
// and exactly that if the transaction may not burn native tokens.
func tokenBalanced(p *Params, id iotago.NativeTokenID, in *big.Int, outs iotago.NativeTokenSum) bool {
	if _, minting := p.WorkingSet.OutChains[id]; minting {
		return true
	}
	out := outs[id]
	if out == nil {
		return !p.WorkingSet.Tx.Capabilities.CannotBurnNativeTokens()
	}
	if p.WorkingSet.Tx.Capabilities.CannotBurnNativeTokens() {
		return g.Big(in).Eq(g.Big(out))
	}
	return g.Big(out).Le(g.Big(in))
}

func tokenKnown(p *Params, id iotago.NativeTokenID, ins iotago.NativeTokenSum) bool {
	_, minting := p.WorkingSet.OutChains[id]
	return minting || ins[id] != nil
}

//gvc:contract target=ExecFuncBalancedNativeTokens props=C05 opaque=(Outputs[T]).NativeTokenSum,TransactionCapabilitiesBitMask.CannotBurnNativeTokens stable
func c_ExecFuncBalancedNativeTokens(p *Params) {
	g.Requires(p != nil && p.WorkingSet != nil && p.WorkingSet.Tx != nil && p.WorkingSet.Tx.TransactionEssence != nil)
	ws := p.WorkingSet
	g.Requires(g.Forall(0, len(ws.UTXOInputs), func(i int) bool { return inputTokenOK(ws.UTXOInputs[i]) }))
	g.Requires(g.Forall(0, len(ws.Tx.Outputs), func(i int) bool { return inputTokenOK(ws.Tx.Outputs[i]) }))
	ins, errIn := ws.UTXOInputs.NativeTokenSum()
	outs, errOut := ws.Tx.Outputs.NativeTokenSum()
	g.Requires(g.ForallMap(ins, func(id iotago.NativeTokenID, v *big.Int) bool { return v != nil }))
	g.Requires(g.ForallMap(outs, func(id iotago.NativeTokenID, v *big.Int) bool { return v != nil }))
	err := ExecFuncBalancedNativeTokens()(nil, p)
	if errIn != nil || errOut != nil {
		g.Ensures(err != nil, "a transaction with an invalid sum of native tokens is refused")
	} else {
		g.Ensures((err == nil) == (g.ForallMap(ins, func(id iotago.NativeTokenID, v *big.Int) bool { return tokenBalanced(p, id, v, outs) }) &&
			g.ForallMap(outs, func(id iotago.NativeTokenID, v *big.Int) bool { return tokenKnown(p, id, ins) })), "native tokens whose foundry is not on the output side are neither created nor, if the transaction may not, burned")
		g.Ensures(g.ForallMap(ins, func(id iotago.NativeTokenID, v *big.Int) bool {
			return ws.InNativeTokens[id] != nil && g.Big(ws.InNativeTokens[id]).Eq(g.Big(v))
		}) && g.ForallMap(outs, func(id iotago.NativeTokenID, v *big.Int) bool {
			return ws.OutNativeTokens[id] != nil && g.Big(ws.OutNativeTokens[id]).Eq(g.Big(v))
		}), "the foundries are checked against the sums of the inputs and of the outputs")
	}
}

func inputTokenOK(o iotago.Output) bool {
	return o != nil && (o.FeatureSet().NativeToken() == nil || o.FeatureSet().NativeToken().Amount != nil)
}

//gvc:invariant for=c_ExecFuncBalancedNativeTokens
func inv_BNT1(vmParams *Params) bool {
	return g.VisitedForall(vmParams.WorkingSet.InNativeTokens, func(id iotago.NativeTokenID, v *big.Int) bool {
		return tokenBalanced(vmParams, id, v, vmParams.WorkingSet.OutNativeTokens)
	})
}

//gvc:invariant for=c_ExecFuncBalancedNativeTokens
func inv_BNT2(vmParams *Params) bool {
	return g.VisitedForall(vmParams.WorkingSet.OutNativeTokens, func(id iotago.NativeTokenID, v *big.Int) bool {
		return tokenKnown(vmParams, id, vmParams.WorkingSet.InNativeTokens)
	})
}
