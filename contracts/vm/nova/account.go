package nova

import (
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// tooEarly: a block issuer feature may not expire before this slot.
func expiryOK(p *vm.Params, f *iotago.BlockIssuerFeature) bool { return f.ExpirySlot >= pastSlot(p) }

// specNewStake: the rules for a staking feature which starts now.
func specNewStake(p *vm.Params, s *iotago.StakingFeature) bool {
	now := p.API.TimeProvider().EpochFromSlot(pastSlot(p))
	return s.StartEpoch == now && s.EndEpoch >= now+p.API.ProtocolParameters().StakingUnbondingPeriod()
}

//gvc:contract target=accountGenesisValid props=C08 opaque=vm.IsIssuerOnOutputUnlocked,(*TimeProvider).EpochFromSlot
func c_accountGenesisValid(p *vm.Params, next *iotago.AccountOutput, mustBeNew bool) {
	g.Requires(paramsOK(p) && next != nil)
	bi, st := next.FeatureSet().BlockIssuer(), next.FeatureSet().Staking()
	g.Requires(bi == nil && st == nil || p.WorkingSet.Commitment != nil)
	err := accountGenesisValid(p, next, mustBeNew)
	g.Ensures((err == nil) == ((!mustBeNew || next.AccountID == iotago.AccountID{}) && (bi == nil || expiryOK(p, bi)) && (st == nil || specNewStake(p, st)) && issuerUnlocked(p, next)), "an account is created iff its identifier is empty, its block issuer feature expires late enough, its stake starts now and lasts for the unbonding period, and its issuer is unlocked")
}

//gvc:contract target=accountStakingGenesisValidation props=C08 opaque=(*TimeProvider).EpochFromSlot
func c_accountStakingGenesisValidation(p *vm.Params, s *iotago.StakingFeature) {
	g.Requires(paramsOK(p) && s != nil && p.WorkingSet.Commitment != nil)
	err := accountStakingGenesisValidation(p, s)
	g.Ensures((err == nil) == specNewStake(p, s), "a stake may be added iff it starts in the current epoch and ends no earlier than the unbonding period")
}

// stakeRunning: the stake may still not be over.
func stakeRunning(p *vm.Params, s *iotago.StakingFeature) bool {
	return p.API.TimeProvider().EpochFromSlot(futureSlot(p)) <= s.EndEpoch
}

// specStaking: whether the staking feature may change from a to b, and whether this counts as removing it.
func specStaking(p *vm.Params, a, b *iotago.StakingFeature) (bool, bool) {
	switch {
	case a == nil && b == nil:
		return true, false
	case a == nil:
		return specNewStake(p, b), false
	case p.WorkingSet.Commitment == nil:
		return false, false
	case stakeRunning(p, a):
		end := p.API.TimeProvider().EpochFromSlot(pastSlot(p)) + p.API.ProtocolParameters().StakingUnbondingPeriod()
		return b != nil && a.StakedAmount == b.StakedAmount && a.FixedCost == b.FixedCost && a.StartEpoch == b.StartEpoch && (a.EndEpoch == b.EndEpoch || b.EndEpoch >= end), false
	case b == nil:
		return true, true
	case *a == *b:
		return true, false
	}
	return specNewStake(p, b), true
}

//gvc:contract target=accountStakingSTVF props=C08 opaque=(*TimeProvider).EpochFromSlot
func c_accountStakingSTVF(p *vm.Params, cur *iotago.AccountOutput, next *iotago.AccountOutput) {
	g.Requires(paramsOK(p) && cur != nil && next != nil)
	a, b := cur.FeatureSet().Staking(), next.FeatureSet().Staking()
	g.Requires(b == nil || p.WorkingSet.Commitment != nil)
	removing := false
	err := accountStakingSTVF(p, cur, next, &removing)
	ok, gone := specStaking(p, a, b)
	g.Ensures((err == nil) == ok, "a stake which may still run can only have its end moved, to no earlier than the unbonding period, and a finished stake is removed, kept or replaced by a new one")
	if err == nil {
		g.Ensures(removing == gone, "the stake counts as removed iff it is finished and removed or replaced")
	}
}

// bicOK: the credits of the account are known and not negative.
func bicOK(p *vm.Params, id iotago.ChainID) bool {
	a, is := id.(iotago.AccountID)
	if !is {
		return false
	}
	bic, has := p.WorkingSet.BIC[a]
	return has && bic >= 0
}

//gvc:contract target=accountBlockIssuanceCreditLocked props=C08
func c_accountBlockIssuanceCreditLocked(p *vm.Params, input *vm.ChainOutputWithIDs) {
	g.Requires(p != nil && p.WorkingSet != nil && input != nil && input.ChainID != nil)
	err := accountBlockIssuanceCreditLocked(input, p.WorkingSet.BIC)
	g.Ensures((err == nil) == bicOK(p, input.ChainID), "an account is locked unless its credits are known and not negative")
}

func specDestroy(p *vm.Params, cur *iotago.AccountOutput, id iotago.ChainID) bool {
	bi, st := cur.FeatureSet().BlockIssuer(), cur.FeatureSet().Staking()
	if p.WorkingSet.Tx.Capabilities.CannotDestroyAccountOutputs() || (bi != nil || st != nil) && p.WorkingSet.Commitment == nil {
		return false
	}
	return (bi == nil || bi.ExpirySlot < p.WorkingSet.Commitment.Slot && bicOK(p, id)) && (st == nil || !stakeRunning(p, st))
}

//gvc:contract target=accountDestructionValid props=C08 opaque=(*TimeProvider).EpochFromSlot
func c_accountDestructionValid(p *vm.Params, cur *iotago.AccountOutput, id iotago.ChainID) {
	g.Requires(paramsOK(p) && cur != nil && id != nil)
	st := cur.FeatureSet().Staking()
	removing := false
	err := accountDestructionValid(p, &vm.ChainOutputWithIDs{ChainID: id, Output: cur}, &removing)
	g.Ensures((err == nil) == specDestroy(p, cur, id), "an account is destroyed iff that is allowed, it is no unexpired block issuer, its credits are not negative, and its stake is finished")
	if err == nil {
		g.Ensures(removing == (st != nil), "the stake counts as removed iff there was one")
	}
}

// newFoundryOf: the output is a foundry which the transaction creates for the account.
func newFoundryOf(p *vm.Params, o iotago.Output, id iotago.AccountID) bool {
	f, is := o.(*iotago.FoundryOutput)
	if !is {
		return false
	}
	if _, notNew := p.WorkingSet.InChains[f.MustFoundryID()]; notNew {
		return false
	}
	a, is := f.Owner().(*iotago.AccountAddress)
	return is && iotago.AccountID(*a) == id
}

//gvc:contract target=accountFoundryCounterSTVF props=C08,C09 opaque=(*FoundryOutput).MustFoundryID,(*FoundryOutput).Owner
func c_accountFoundryCounterSTVF(p *vm.Params, cur *iotago.AccountOutput, next *iotago.AccountOutput) {
	g.Requires(paramsOK(p) && cur != nil && next != nil && len(p.WorkingSet.Tx.Outputs) <= 1<<20)
	err := accountFoundryCounterSTVF(p, cur, next)
	n := g.Sum(0, len(p.WorkingSet.Tx.Outputs), func(i int) g.Int {
		if newFoundryOf(p, p.WorkingSet.Tx.Outputs[i], next.AccountID) {
			return g.K(1)
		}
		return g.K(0)
	})
	g.Ensures((err == nil) == (cur.FoundryCounter == next.FoundryCounter || g.N(next.FoundryCounter).Eq(g.N(cur.FoundryCounter).Add(n))), "the foundry counter stays or grows by exactly the number of foundries the transaction creates for the account")
}

//gvc:invariant for=c_accountFoundryCounterSTVF
func inv_accountFoundryCounterSTVF(p *vm.Params, next *iotago.AccountOutput, seenNewFoundriesOfAccount uint32, i int) bool {
	return g.N(seenNewFoundriesOfAccount).Eq(g.Sum(0, i, func(k int) g.Int {
		if newFoundryOf(p, p.WorkingSet.Tx.Outputs[k], next.AccountID) {
			return g.K(1)
		}
		return g.K(0)
	})) && int(seenNewFoundriesOfAccount) <= i
}

//gvc:contract target=accountStateChangeValid props=C08 opaque=(Features[T]).Equal,(*TimeProvider).EpochFromSlot,vm/nova.accountBlockIssuerSTVF,vm/nova.accountFoundryCounterSTVF
func c_accountStateChangeValid(p *vm.Params, cur *iotago.AccountOutput, next *iotago.AccountOutput, id iotago.ChainID) {
	g.Requires(paramsOK(p) && cur != nil && next != nil && id != nil)
	a, b := cur.FeatureSet().Staking(), next.FeatureSet().Staking()
	g.Requires(b == nil || p.WorkingSet.Commitment != nil)
	removing := false
	input := &vm.ChainOutputWithIDs{ChainID: id, Output: cur}
	bi := cur.FeatureSet().BlockIssuer()
	counter, issuer := accountFoundryCounterSTVF(p, cur, next) == nil, accountBlockIssuerSTVF(p, input, bi, next) == nil
	err := accountStateChangeValid(p, input, next, &removing)
	stake, gone := specStaking(p, a, b)
	ok := cur.ImmutableFeatures.Equal(next.ImmutableFeatures) && (bi == nil || bicOK(p, id)) && stake && counter && issuer
	g.Ensures((err == nil) == ok, "an account changes iff it keeps its immutable features, has no negative credits as a block issuer, and its stake, its foundry counter and its block issuer feature change as allowed")
	if err == nil {
		g.Ensures(removing == gone, "the stake counts as removed iff it is finished and removed or replaced")
	}
}

//gvc:contract target=accountSTVF props=C08 opaque=(Features[T]).Equal,(*TimeProvider).EpochFromSlot,vm/nova.accountBlockIssuerSTVF,vm/nova.accountFoundryCounterSTVF
func c_accountSTVF_change(p *vm.Params, cur *iotago.AccountOutput, next *iotago.AccountOutput, id iotago.ChainID) {
	g.Requires(paramsOK(p) && cur != nil && next != nil && id != nil)
	a, b := cur.FeatureSet().Staking(), next.FeatureSet().Staking()
	g.Requires(b == nil || p.WorkingSet.Commitment != nil)
	input := &vm.ChainOutputWithIDs{ChainID: id, Output: cur}
	bi := cur.FeatureSet().BlockIssuer()
	counter, issuer := accountFoundryCounterSTVF(p, cur, next) == nil, accountBlockIssuerSTVF(p, input, bi, next) == nil
	_, claiming := p.WorkingSet.Rewards[id]
	err := accountSTVF(p, input, iotago.ChainTransitionTypeStateChange, next)
	stake, gone := specStaking(p, a, b)
	ok := cur.ImmutableFeatures.Equal(next.ImmutableFeatures) && (bi == nil || bicOK(p, id)) && stake && counter && issuer
	g.Ensures((err == nil) == (ok && claiming == gone), "an account changes iff all its parts change as allowed, and rewards are claimed iff a finished stake is removed or replaced")
}

//gvc:contract target=accountSTVF props=C08 opaque=(*TimeProvider).EpochFromSlot
func c_accountSTVF_destroy(p *vm.Params, cur *iotago.AccountOutput, id iotago.ChainID) {
	g.Requires(paramsOK(p) && cur != nil && id != nil)
	_, claiming := p.WorkingSet.Rewards[id]
	err := accountSTVF(p, &vm.ChainOutputWithIDs{ChainID: id, Output: cur}, iotago.ChainTransitionTypeDestroy, nil)
	g.Ensures((err == nil) == (specDestroy(p, cur, id) && claiming == (cur.FeatureSet().Staking() != nil)), "an account is destroyed iff that is allowed, and its rewards are claimed iff it had a stake")
}

//gvc:contract target=accountSTVF props=C08 opaque=vm.IsIssuerOnOutputUnlocked,(*TimeProvider).EpochFromSlot
func c_accountSTVF_genesis(p *vm.Params, next *iotago.AccountOutput) {
	g.Requires(paramsOK(p) && next != nil)
	bi, st := next.FeatureSet().BlockIssuer(), next.FeatureSet().Staking()
	g.Requires(bi == nil && st == nil || p.WorkingSet.Commitment != nil)
	err := accountSTVF(p, nil, iotago.ChainTransitionTypeGenesis, next)
	g.Ensures((err == nil) == (next.AccountID == iotago.AccountID{} && (bi == nil || expiryOK(p, bi)) && (st == nil || specNewStake(p, st)) && issuerUnlocked(p, next)), "an account is created iff its identifier is empty, its block issuer feature expires late enough, its stake starts now and lasts for the unbonding period, and its issuer is unlocked")
}

// manaKept: the mana bound to the account stays with it. All sums are exact.
func manaKept(p *vm.Params, input *vm.ChainOutputWithIDs, next *iotago.AccountOutput) bool {
	tx, mdp := p.WorkingSet.Tx, p.API.ManaDecayProvider()
	stored, err1 := mdp.DecayManaBySlots(input.Output.StoredMana(), input.OutputID.CreationSlot(), tx.CreationSlot)
	potential, err2 := iotago.PotentialMana(mdp, p.API.StorageScoreStructure(), input.Output, input.OutputID.CreationSlot(), tx.CreationSlot)
	if err1 != nil || err2 != nil {
		return false
	}
	in := g.N(p.WorkingSet.TotalManaIn).Sub(g.N(stored)).Sub(g.N(potential))
	out := g.N(p.WorkingSet.TotalManaOut).Sub(g.N(next.Mana)).Sub(g.N(tx.Allotments.Get(next.AccountID))).Sub(lockedMana(p, next, len(tx.Outputs)))
	zero := g.K(0)
	return zero.Le(in) && zero.Le(out) && out.Le(in)
}

// lockedMana: the mana of the first n outputs which are locked to the account.
func lockedMana(p *vm.Params, next *iotago.AccountOutput, n int) g.Int {
	outs, until := p.WorkingSet.Tx.Outputs, pastSlot(p)+p.API.ProtocolParameters().MaxCommittableAge()
	return g.Sum(0, n, func(i int) g.Int {
		if outs[i].UnlockConditionSet().HasManalockCondition(next.AccountID, until) {
			return g.N(outs[i].StoredMana())
		}
		return g.K(0)
	})
}

func specBlockIssuer(p *vm.Params, a, b *iotago.BlockIssuerFeature) bool {
	if a != nil && a.ExpirySlot >= p.WorkingSet.Commitment.Slot {
		return b != nil && (b.ExpirySlot == a.ExpirySlot || expiryOK(p, b))
	}
	return b == nil || expiryOK(p, b)
}

//gvc:contract target=accountBlockIssuerSTVF props=C08 opaque=(*ManaDecayProvider).DecayManaBySlots,PotentialMana,(UnlockConditionSet).HasManalockCondition,iface:(Output).UnlockConditionSet,iface:(Output).StoredMana,(Allotments).Get
func c_accountBlockIssuerSTVF(p *vm.Params, input *vm.ChainOutputWithIDs, a *iotago.BlockIssuerFeature, next *iotago.AccountOutput) {
	g.Requires(paramsOK(p) && input != nil && input.Output != nil && next != nil)
	outs := p.WorkingSet.Tx.Outputs
	g.Requires(g.Forall(0, len(outs), func(i int) bool { return outs[i] != nil }))
	b := next.FeatureSet().BlockIssuer()
	err := accountBlockIssuerSTVF(p, input, a, next)
	switch {
	case a == nil && b == nil:
		g.Ensures(err == nil, "an account which neither is nor becomes a block issuer is not restricted")
	case p.WorkingSet.Commitment == nil:
		g.Ensures(err != nil, "a block issuer needs a commitment input")
	default:
		g.Ensures((err == nil) == (specBlockIssuer(p, a, b) && manaKept(p, input, next)), "a block issuer feature which has not expired is kept or prolonged, a new one expires late enough, and the account's mana stays with it")
	}
}

//gvc:invariant for=c_accountBlockIssuerSTVF
func inv_accountBlockIssuerSTVF(p *vm.Params, next *iotago.AccountOutput, manaOut iotago.Mana, i int) bool {
	return g.N(manaOut).Add(lockedMana(p, next, i)).Eq(g.N(p.WorkingSet.TotalManaOut).Sub(g.N(next.Mana)).Sub(g.N(p.WorkingSet.Tx.Allotments.Get(next.AccountID))))
}

//gvc:contract target=implicitAccountSTVF props=C08 opaque=vm/nova.accountBlockIssuerSTVF,vm.IsIssuerOnOutputUnlocked,(*TimeProvider).EpochFromSlot
func c_implicitAccountSTVF(p *vm.Params, implicit *vm.ImplicitAccountOutput, id iotago.OutputID, next *iotago.AccountOutput, tt iotago.ChainTransitionType) {
	g.Requires(paramsOK(p) && implicit != nil && next != nil)
	bi, st := next.FeatureSet().BlockIssuer(), next.FeatureSet().Staking()
	g.Requires(bi == nil && st == nil || p.WorkingSet.Commitment != nil)
	err := implicitAccountSTVF(p, implicit, id, next, tt)
	if err == nil {
		g.Ensures(tt != iotago.ChainTransitionTypeDestroy, "an implicit account cannot be destroyed")
		bic, has := p.WorkingSet.BIC[next.AccountID]
		g.Ensures(has && bic >= 0, "an implicit account with negative credits is locked")
		g.Ensures((bi == nil || expiryOK(p, bi)) && (st == nil || specNewStake(p, st)) && issuerUnlocked(p, next), "an account made from an implicit one follows the rules of new accounts")
	}
}
