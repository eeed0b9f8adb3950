package vm

import (
	iotago "github.com/iotaledger/iota.go/v4"
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

//gvc:contract target=ExecFuncChainTransitions props=C08,C09,C10 opaque=iface:(vm.VirtualMachine).ChainSTVF
func c_ExecFuncChainTransitions(vm VirtualMachine, p *Params) {
	g.NativeLimit(vm != nil)
	g.Requires(vm != nil && p != nil && p.WorkingSet != nil)
	ws := p.WorkingSet
	g.Requires(g.ForallMap(ws.InChains, func(id iotago.ChainID, in *ChainOutputWithIDs) bool { return in != nil && in.Output != nil }))
	g.Requires(g.ForallMap(ws.OutChains, func(id iotago.ChainID, out iotago.ChainOutput) bool { return out != nil }))
	err := ExecFuncChainTransitions()(vm, p)
	ins := g.ForallMap(ws.InChains, func(id iotago.ChainID, in *ChainOutputWithIDs) bool { return inChainOK(vm, p, id, in) })
	outs := g.ForallMap(ws.OutChains, func(id iotago.ChainID, out iotago.ChainOutput) bool { return outChainOK(vm, p, id, out) })
	g.Ensures((err == nil) == (ins && outs), "a transaction is accepted iff every chain on its input side changes or is destroyed as allowed and every other chain on its output side is created as allowed")
}

func inChainOK(vm VirtualMachine, p *Params, id iotago.ChainID, in *ChainOutputWithIDs) bool {
	if next, has := p.WorkingSet.OutChains[id]; has {
		return vm.ChainSTVF(p, iotago.ChainTransitionTypeStateChange, in, next) == nil
	}
	return vm.ChainSTVF(p, iotago.ChainTransitionTypeDestroy, in, nil) == nil
}

func outChainOK(vm VirtualMachine, p *Params, id iotago.ChainID, out iotago.ChainOutput) bool {
	if _, has := p.WorkingSet.InChains[id]; has {
		return true
	}
	return vm.ChainSTVF(p, iotago.ChainTransitionTypeGenesis, nil, out) == nil
}

//gvc:invariant for=c_ExecFuncChainTransitions
func inv_ExecFuncChainTransitions_in(vm VirtualMachine, p *Params) bool {
	return g.VisitedForall(p.WorkingSet.InChains, func(id iotago.ChainID, in *ChainOutputWithIDs) bool { return inChainOK(vm, p, id, in) })
}

//gvc:invariant for=c_ExecFuncChainTransitions
func inv_ExecFuncChainTransitions_out(vm VirtualMachine, p *Params) bool {
	return g.VisitedForall(p.WorkingSet.OutChains, func(id iotago.ChainID, out iotago.ChainOutput) bool { return outChainOK(vm, p, id, out) })
}

// chainOf: the identifier of the chain an output continues, given the identifier of the output.
func chainOf(o iotago.ChainOutput, id iotago.OutputID) iotago.ChainID {
	c := o.ChainID()
	if c.Empty() {
		if u, is := c.(iotago.UTXOIDChainID); is {
			return u.FromOutputID(id)
		}
	}
	return c
}

//gvc:contract target=InputSet.ChainInputSet props=C08,C09,C10 opaque=iface:(ChainOutput).ChainID,iface:(ChainID).Empty,iface:(UTXOIDChainID).FromOutputID
func c_ChainInputSet(s InputSet) {
	g.Requires(g.ForallMap(s, func(id iotago.OutputID, o iotago.Output) bool {
		c, is := o.(iotago.ChainOutput)
		return !is || c.ChainID() != nil
	}))
	set := s.ChainInputSet()
	g.Ensures(g.ForallMap(s, func(id iotago.OutputID, o iotago.Output) bool {
		c, is := o.(iotago.ChainOutput)
		if !is {
			return true
		}
		_, has := set[chainOf(c, id)]
		return has
	}), "every chain among the inputs is in the set under its identifier")
	g.Ensures(g.ForallMap(set, func(k iotago.ChainID, e *ChainOutputWithIDs) bool {
		if e == nil || e.ChainID != k {
			return false
		}
		o, has := s[e.OutputID]
		return has && g.SameIface(o, e.Output) && chainOf(e.Output, e.OutputID) == k
	}), "every entry of the set is an input filed under the identifier of its chain")
}

//gvc:invariant for=c_ChainInputSet
func inv_ChainInputSet_all(inputSet InputSet, set ChainInputSet) bool {
	return g.VisitedForall(inputSet, func(id iotago.OutputID, o iotago.Output) bool {
		c, is := o.(iotago.ChainOutput)
		if !is {
			return true
		}
		_, has := set[chainOf(c, id)]
		return has
	})
}

//gvc:invariant for=c_ChainInputSet
func inv_ChainInputSet_only(inputSet InputSet, set ChainInputSet) bool {
	return g.ForallMap(set, func(k iotago.ChainID, e *ChainOutputWithIDs) bool {
		if e == nil || e.ChainID != k {
			return false
		}
		o, has := inputSet[e.OutputID]
		return has && g.SameIface(o, e.Output) && chainOf(e.Output, e.OutputID) == k
	})
}
