package nova

import (
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// pastSlot and futureSlot: the bounds the commitment input puts on the slot of the transaction.
func pastSlot(p *vm.Params) iotago.SlotIndex {
	return p.WorkingSet.Commitment.Slot + p.API.ProtocolParameters().MaxCommittableAge()
}

func futureSlot(p *vm.Params) iotago.SlotIndex {
	return p.WorkingSet.Commitment.Slot + p.API.ProtocolParameters().MinCommittableAge()
}

func paramsOK(p *vm.Params) bool {
	return p != nil && p.API != nil && p.API.ProtocolParameters() != nil && p.WorkingSet != nil && p.WorkingSet.Tx != nil && p.WorkingSet.Tx.TransactionEssence != nil
}

// registration: the last slot in which registrations for the epoch after next are counted.
func registration(p *vm.Params, e iotago.EpochIndex) iotago.SlotIndex {
	return p.API.TimeProvider().EpochEnd(e) - p.API.ProtocolParameters().EpochNearingThreshold()
}

func specStartEpoch(p *vm.Params) iotago.EpochIndex {
	e := p.API.TimeProvider().EpochFromSlot(pastSlot(p))
	if pastSlot(p) <= registration(p, e) {
		return e + 1
	}
	return e + 2
}

func specEndEpoch(p *vm.Params) iotago.EpochIndex {
	e := p.API.TimeProvider().EpochFromSlot(futureSlot(p))
	if futureSlot(p) <= registration(p, e) {
		return e
	}
	return e + 1
}

func specDelegationGenesis(p *vm.Params, d *iotago.DelegationOutput) bool {
	if p.WorkingSet.Commitment == nil {
		return false
	}
	return d.DelegationID == iotago.DelegationID{} && d.StartEpoch == specStartEpoch(p) && d.EndEpoch == 0 && d.DelegatedAmount == d.Amount
}

func specDelegationChange(p *vm.Params, a, b *iotago.DelegationOutput) bool {
	if p.WorkingSet.Commitment == nil {
		return false
	}
	return a.DelegationID == iotago.DelegationID{} && a.DelegatedAmount == b.DelegatedAmount && a.StartEpoch == b.StartEpoch && a.ValidatorAddress.Equal(b.ValidatorAddress) && b.EndEpoch == specEndEpoch(p)
}

//gvc:contract target=delegationSTVF props=C10 opaque=(*TimeProvider).EpochFromSlot,(*TimeProvider).EpochEnd
func c_delegationSTVF_genesis(p *vm.Params, next *iotago.DelegationOutput, input *vm.ChainOutputWithIDs) {
	g.Requires(paramsOK(p) && next != nil)
	err := delegationSTVF(p, input, iotago.ChainTransitionTypeGenesis, next)
	g.Ensures((err == nil) == specDelegationGenesis(p, next), "a delegation is created iff it has no identifier yet, delegates its own amount, starts at the registration epoch and has no end epoch")
}

//gvc:contract target=delegationSTVF props=C10 opaque=(*TimeProvider).EpochFromSlot,(*TimeProvider).EpochEnd
func c_delegationSTVF_change(p *vm.Params, cur *iotago.DelegationOutput, next *iotago.DelegationOutput, id iotago.ChainID) {
	g.Requires(paramsOK(p) && next != nil && cur != nil && cur.ValidatorAddress != nil && next.ValidatorAddress != nil)
	_, claims := p.WorkingSet.Rewards[id]
	err := delegationSTVF(p, &vm.ChainOutputWithIDs{ChainID: id, Output: cur}, iotago.ChainTransitionTypeStateChange, next)
	g.Ensures((err == nil) == (!claims && specDelegationChange(p, cur, next)), "a delegation changes iff it claims no rewards, was not changed before, keeps amount, validator and start epoch, and ends at the registration epoch")
}

//gvc:contract target=delegationSTVF props=C10
func c_delegationSTVF_destroy(p *vm.Params, input *vm.ChainOutputWithIDs, next *iotago.DelegationOutput) {
	g.Requires(paramsOK(p) && input != nil)
	_, claims := p.WorkingSet.Rewards[input.ChainID]
	err := delegationSTVF(p, input, iotago.ChainTransitionTypeDestroy, next)
	g.Ensures((err == nil) == claims, "a delegation is destroyed iff its rewards are claimed")
}

//gvc:contract target=registrationSlot props=C10
func c_registrationSlot(p *vm.Params, e iotago.EpochIndex) {
	g.Requires(paramsOK(p))
	end, near := p.API.TimeProvider().EpochEnd(e), p.API.ProtocolParameters().EpochNearingThreshold()
	g.Requires(near <= end)
	g.Ensures(g.N(registrationSlot(p, e)).Eq(g.N(end).Sub(g.N(near))), "registration ends a fixed number of slots before the end of the epoch")
}

//gvc:nudge
func nudge_delegationSTVF_genesis(r *g.Rand, p *vm.Params, next *iotago.DelegationOutput, input *vm.ChainOutputWithIDs) {
	next.DelegationID, next.EndEpoch, next.DelegatedAmount = iotago.DelegationID{}, 0, next.Amount
	next.StartEpoch = specStartEpoch(p)
	switch r.Intn(8) {
	case 0:
		next.StartEpoch++
	case 1:
		next.StartEpoch--
	case 2:
		next.EndEpoch = 1
	case 3:
		next.DelegatedAmount++
	case 4:
		next.DelegationID[31] = 1
	}
}

//gvc:nudge
func nudge_delegationSTVF_change(r *g.Rand, p *vm.Params, cur *iotago.DelegationOutput, next *iotago.DelegationOutput, id iotago.ChainID) {
	end := specEndEpoch(p)
	*next = *cur
	next.EndEpoch = end
	if r.Intn(6) > 0 {
		cur.DelegationID = iotago.DelegationID{}
	}
	switch r.Intn(8) {
	case 0:
		next.EndEpoch++
	case 1:
		next.EndEpoch--
	case 2:
		next.DelegatedAmount++
	case 3:
		next.StartEpoch++
	case 5:
		next.ValidatorAddress = &iotago.AccountAddress{31: 1}
	case 6:
		next.Amount++
	}
}
