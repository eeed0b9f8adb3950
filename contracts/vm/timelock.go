package vm

import (
	iotago "github.com/iotaledger/iota.go/v4"
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// timelockOK: the input carries no timelock, or its slot has been reached at the given slot.
func timelockOK(in iotago.Output, slot iotago.SlotIndex) bool {
	t := in.UnlockConditionSet().Timelock()
	return t == nil || t.Slot <= slot
}

func hasTimelock(in iotago.Output) bool {
	return in.UnlockConditionSet().Timelock() != nil
}

func outputOK(o iotago.Output) bool {
	return o != nil
}

//gvc:contract target=ExecFuncTimelocks props=C07 opaque=iface:(Output).UnlockConditionSet
func c_ExecFuncTimelocks(p *Params) {
	g.Requires(p != nil && p.API != nil && p.WorkingSet != nil)
	g.Requires(g.ForallMap(p.WorkingSet.UTXOInputsSet, func(id iotago.OutputID, in iotago.Output) bool { return in != nil }))
	err := ExecFuncTimelocks()(nil, p)
	c := p.WorkingSet.Commitment
	if c == nil {
		g.Ensures((err == nil) == g.ForallMap(p.WorkingSet.UTXOInputsSet, func(id iotago.OutputID, in iotago.Output) bool { return !hasTimelock(in) }), "without a commitment input no input may carry a timelock")
	} else {
		slot := c.Slot + p.API.ProtocolParameters().MinCommittableAge()
		g.Ensures((err == nil) == g.ForallMap(p.WorkingSet.UTXOInputsSet, func(id iotago.OutputID, in iotago.Output) bool { return timelockOK(in, slot) }), "the transaction is accepted iff the timelock of every input is expired at the future bounded slot")
	}
}

//gvc:invariant for=c_ExecFuncTimelocks
func inv_ExecFuncTimelocks(vmParams *Params) bool {
	return g.VisitedForall(vmParams.WorkingSet.UTXOInputsSet, func(id iotago.OutputID, in iotago.Output) bool {
		if vmParams.WorkingSet.Commitment == nil {
			return !hasTimelock(in)
		}
		return timelockOK(in, vmParams.WorkingSet.Commitment.Slot+vmParams.API.ProtocolParameters().MinCommittableAge())
	})
}

//gvc:contract target=Params.PastBoundedSlotIndex props=C07
func c_BoundedSlotIndex(p *Params, slot iotago.SlotIndex) {
	g.Requires(p != nil && p.API != nil && p.API.ProtocolParameters() != nil)
	min, max := p.API.ProtocolParameters().MinCommittableAge(), p.API.ProtocolParameters().MaxCommittableAge()
	g.Requires(g.N(slot).Add(g.N(max)).Lt(g.Pow2(32)) && g.N(slot).Add(g.N(min)).Lt(g.Pow2(32)))
	g.Ensures(g.N(p.PastBoundedSlotIndex(slot)).Eq(g.N(slot).Add(g.N(max))), "past bounded slot = commitment slot + max committable age")
	g.Ensures(g.N(p.FutureBoundedSlotIndex(slot)).Eq(g.N(slot).Add(g.N(min))), "future bounded slot = commitment slot + min committable age")
}

//gvc:contract target=checkExpiration props=C07
func c_checkExpiration(out iotago.Output, commitment VMCommitmentInput, params iotago.ProtocolParameters) {
	g.Requires(out != nil && params != nil)
	min, max := params.MinCommittableAge(), params.MaxCommittableAge()
	if commitment != nil {
		g.Requires(g.N(commitment.Slot).Add(g.N(max)).Lt(g.Pow2(32)) && g.N(commitment.Slot).Add(g.N(min)).Lt(g.Pow2(32)))
	}
	addr, err := checkExpiration(out, commitment, params)
	exp := out.UnlockConditionSet().Expiration()
	if exp == nil {
		g.Ensures(addr == nil && err == nil, "without expiration the owner keeps control")
	} else if commitment == nil {
		g.Ensures(addr == nil && err != nil, "an expiration condition needs a commitment input")
	} else if commitment.Slot+min >= exp.Slot {
		g.Ensures(err == nil && g.SameIface(addr, exp.ReturnAddress), "after expiration the return address is in control")
	} else if commitment.Slot+max < exp.Slot {
		g.Ensures(addr == nil && err == nil, "before expiration the owner is in control")
	} else {
		g.Ensures(addr == nil && err != nil, "in between nobody can unlock")
	}
}
