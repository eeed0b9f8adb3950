package nova

import (
	"math/big"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// inputs close to what the protocol accepts

func near(r *g.Rand, x uint32) uint32 { return x + uint32(r.Intn(3)) - 1 }

func nearSlot(r *g.Rand, x iotago.SlotIndex) iotago.SlotIndex {
	return iotago.SlotIndex(near(r, uint32(x)))
}

func nearEpoch(r *g.Rand, x iotago.EpochIndex) iotago.EpochIndex {
	return iotago.EpochIndex(near(r, uint32(x)))
}

// nudgeStake makes a list of features with a stake around the current epoch.
func nudgeFeatures(r *g.Rand, p *vm.Params, old bool) iotago.AccountOutputFeatures {
	var f iotago.AccountOutputFeatures
	if p.WorkingSet.Commitment == nil && r.Intn(8) > 0 {
		p.WorkingSet.Commitment = &iotago.Commitment{Slot: iotago.SlotIndex(r.Intn(1 << 20))}
	}
	c := p.WorkingSet.Commitment
	if c == nil {
		return f
	}
	pp, tp := p.API.ProtocolParameters(), p.API.TimeProvider()
	if r.Intn(3) > 0 {
		x := &iotago.BlockIssuerFeature{ExpirySlot: nearSlot(r, pastSlot(p))}
		if old && r.Intn(2) == 0 {
			x.ExpirySlot = nearSlot(r, c.Slot)
		}
		f = append(f, x)
	}
	if r.Intn(3) > 0 {
		now, later := tp.EpochFromSlot(pastSlot(p)), tp.EpochFromSlot(futureSlot(p))
		x := &iotago.StakingFeature{StakedAmount: 5, FixedCost: 3, StartEpoch: nearEpoch(r, now), EndEpoch: nearEpoch(r, now+pp.StakingUnbondingPeriod())}
		if r.Intn(2) == 0 {
			x.StartEpoch, x.EndEpoch = now, now+pp.StakingUnbondingPeriod()
		}
		if old {
			x.StartEpoch, x.EndEpoch = nearEpoch(r, 3), nearEpoch(r, later)
		}
		f = append(f, x)
	}
	return f
}

func nudgeAccount(r *g.Rand, p *vm.Params, cur, next *iotago.AccountOutput, id iotago.ChainID) {
	if cur != nil {
		cur.Features = nudgeFeatures(r, p, true)
	}
	if next != nil {
		next.Features = nudgeFeatures(r, p, false)
	}
	if cur != nil && next != nil {
		next.ImmutableFeatures = cur.ImmutableFeatures
		next.FoundryCounter = cur.FoundryCounter
		if r.Intn(2) == 0 {
			next.Features = append(iotago.AccountOutputFeatures{}, cur.Features...)
			if st := cur.FeatureSet().Staking(); st != nil {
				x := *st
				switch r.Intn(8) {
				case 0:
					x.StakedAmount++
				case 1:
					x.FixedCost++
				case 2:
					x.StartEpoch++
				case 3:
					x.EndEpoch++
				case 4:
					if p.WorkingSet.Commitment != nil {
						x.EndEpoch = nearEpoch(r, p.API.TimeProvider().EpochFromSlot(pastSlot(p))+p.API.ProtocolParameters().StakingUnbondingPeriod())
					}
				}
				next.Features[len(next.Features)-1] = &x
			}
		}
		p.WorkingSet.TotalManaIn, p.WorkingSet.TotalManaOut = 1<<50, next.Mana
		if r.Intn(2) == 0 {
			p.WorkingSet.Tx.Allotments, p.WorkingSet.Tx.Outputs = nil, nil
			next.FoundryCounter = near(r, cur.FoundryCounter)
			if a, is := id.(iotago.AccountID); is {
				next.AccountID = a
			}
			for i := r.Intn(3); i > 0; i-- {
				a := iotago.AccountAddress(next.AccountID)
				p.WorkingSet.Tx.Outputs = append(p.WorkingSet.Tx.Outputs, &iotago.FoundryOutput{SerialNumber: cur.FoundryCounter + uint32(i), TokenScheme: &iotago.SimpleTokenScheme{MintedTokens: big.NewInt(0), MeltedTokens: big.NewInt(0), MaximumSupply: big.NewInt(5)}, UnlockConditions: iotago.FoundryOutputUnlockConditions{&iotago.ImmutableAccountUnlockCondition{Address: &a}}})
			}
		}
	}
	if p.WorkingSet.BIC == nil {
		p.WorkingSet.BIC = vm.BlockIssuanceCreditInputSet{}
	}
	if a, is := id.(iotago.AccountID); is {
		p.WorkingSet.BIC[a] = iotago.BlockIssuanceCredits(r.Intn(4) - 1)
	}
	delete(p.WorkingSet.Rewards, id)
	if r.Intn(2) == 0 {
		if p.WorkingSet.Rewards == nil {
			p.WorkingSet.Rewards = vm.RewardsInputSet{}
		}
		p.WorkingSet.Rewards[id] = 1
	}
	if r.Intn(2) == 0 {
		p.WorkingSet.Tx.Capabilities = iotago.TransactionCapabilitiesBitMask{0xff}
	}
}

//gvc:nudge
func nudge_accountSTVF_change(r *g.Rand, p *vm.Params, cur *iotago.AccountOutput, next *iotago.AccountOutput, id iotago.ChainID) {
	nudgeAccount(r, p, cur, next, id)
}

//gvc:nudge
func nudge_accountStateChangeValid(r *g.Rand, p *vm.Params, cur *iotago.AccountOutput, next *iotago.AccountOutput, id iotago.ChainID) {
	nudgeAccount(r, p, cur, next, id)
}

//gvc:nudge
func nudge_accountSTVF_destroy(r *g.Rand, p *vm.Params, cur *iotago.AccountOutput, id iotago.ChainID) {
	nudgeAccount(r, p, cur, nil, id)
}

//gvc:nudge
func nudge_accountDestructionValid(r *g.Rand, p *vm.Params, cur *iotago.AccountOutput, id iotago.ChainID) {
	nudgeAccount(r, p, cur, nil, id)
}

//gvc:nudge
func nudge_accountSTVF_genesis(r *g.Rand, p *vm.Params, next *iotago.AccountOutput) {
	nudgeAccount(r, p, nil, next, next.AccountID)
	if r.Intn(4) > 0 {
		next.AccountID = iotago.AccountID{}
	}
}

//gvc:nudge
func nudge_accountGenesisValid(r *g.Rand, p *vm.Params, next *iotago.AccountOutput, mustBeNew bool) {
	nudgeAccount(r, p, nil, next, next.AccountID)
	if r.Intn(4) > 0 {
		next.AccountID = iotago.AccountID{}
	}
}

//gvc:nudge
func nudge_accountStakingSTVF(r *g.Rand, p *vm.Params, cur *iotago.AccountOutput, next *iotago.AccountOutput) {
	nudgeAccount(r, p, cur, next, cur.AccountID)
}

//gvc:nudge
func nudge_accountFoundryCounterSTVF(r *g.Rand, p *vm.Params, cur *iotago.AccountOutput, next *iotago.AccountOutput) {
	nudgeAccount(r, p, cur, next, cur.AccountID)
}

//gvc:nudge
func nudge_accountStakingGenesisValidation(r *g.Rand, p *vm.Params, s *iotago.StakingFeature) {
	if p.WorkingSet.Commitment != nil {
		now := p.API.TimeProvider().EpochFromSlot(pastSlot(p))
		s.StartEpoch, s.EndEpoch = now, nearEpoch(r, now+p.API.ProtocolParameters().StakingUnbondingPeriod())
		if r.Intn(3) == 0 {
			s.StartEpoch = nearEpoch(r, now)
		}
	}
}

//gvc:nudge
func nudge_accountBlockIssuerSTVF(r *g.Rand, p *vm.Params, input *vm.ChainOutputWithIDs, a *iotago.BlockIssuerFeature, next *iotago.AccountOutput) {
	next.Features = nudgeFeatures(r, p, false)
	if p.WorkingSet.Commitment != nil && a != nil {
		a.ExpirySlot = nearSlot(r, p.WorkingSet.Commitment.Slot)
		if b := next.FeatureSet().BlockIssuer(); b != nil && r.Intn(2) == 0 {
			b.ExpirySlot = nearSlot(r, a.ExpirySlot)
		}
	}
	ws := p.WorkingSet
	if r.Intn(3) > 0 {
		ws.Tx.CreationSlot = input.OutputID.CreationSlot() + iotago.SlotIndex(r.Intn(50))
		mdp := p.API.ManaDecayProvider()
		stored, _ := mdp.DecayManaBySlots(input.Output.StoredMana(), input.OutputID.CreationSlot(), ws.Tx.CreationSlot)
		potential, _ := iotago.PotentialMana(mdp, p.API.StorageScoreStructure(), input.Output, input.OutputID.CreationSlot(), ws.Tx.CreationSlot)
		extra := iotago.Mana(r.Intn(1000))
		ws.TotalManaIn = stored + potential + extra
		ws.Tx.Outputs = nil
		a := iotago.AccountAddress(next.AccountID)
		var locked iotago.Mana
		for i := r.Intn(3); i > 0; i-- {
			o := &iotago.BasicOutput{Amount: 1, Mana: iotago.Mana(r.Intn(300)), UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: &a}}}
			if ws.Commitment != nil && r.Intn(4) > 0 {
				until := nearSlot(r, pastSlot(p)+p.API.ProtocolParameters().MaxCommittableAge()+1)
				o.UnlockConditions = append(o.UnlockConditions, &iotago.TimelockUnlockCondition{Slot: until})
				locked += o.Mana
			}
			ws.Tx.Outputs = append(ws.Tx.Outputs, o)
		}
		next.Mana = iotago.Mana(r.Intn(300))
		ws.Tx.Allotments = iotago.Allotments{{AccountID: next.AccountID, Mana: iotago.Mana(r.Intn(300))}}
		ws.TotalManaOut = next.Mana + ws.Tx.Allotments[0].Mana + locked + extra + iotago.Mana(r.Intn(3)) - 1
	}
}

//gvc:nudge
func nudge_implicitAccountSTVF(r *g.Rand, p *vm.Params, implicit *vm.ImplicitAccountOutput, id iotago.OutputID, next *iotago.AccountOutput, tt iotago.ChainTransitionType) {
	nudgeAccount(r, p, nil, next, next.AccountID)
	ws := p.WorkingSet
	ws.TotalManaIn, ws.TotalManaOut = 1<<60, 0
	if r.Intn(2) == 0 {
		next.Mana, ws.Tx.Allotments, ws.Tx.Outputs = 0, nil, nil
	}
}

//gvc:nudge
func nudge_nftSTVF_change(r *g.Rand, p *vm.Params, cur *iotago.NFTOutput, next *iotago.NFTOutput, id iotago.ChainID) {
	if r.Intn(2) == 0 {
		next.ImmutableFeatures = cur.ImmutableFeatures.Clone()
	}
}

//gvc:nudge
func nudge_nftSTVF_genesis(r *g.Rand, p *vm.Params, next *iotago.NFTOutput) {
	if r.Intn(3) > 0 {
		next.NFTID = iotago.NFTID{}
	}
}

//gvc:nudge
func nudge_anchorSTVF_genesis(r *g.Rand, p *vm.Params, next *iotago.AnchorOutput) {
	if r.Intn(3) > 0 {
		next.AnchorID = iotago.AnchorID{}
	}
}

//gvc:nudge
func nudge_anchorSTVF_change(r *g.Rand, p *vm.Params, cur *iotago.AnchorOutput, next *iotago.AnchorOutput, id iotago.ChainID) {
	x := *next
	*next = *cur
	if r.Intn(2) == 0 {
		next.StateIndex++
	}
	switch r.Intn(10) {
	case 0:
		next.ImmutableFeatures = x.ImmutableFeatures
	case 1, 2:
		next.Features = x.Features
	case 3:
		next.UnlockConditions = x.UnlockConditions
	case 4:
		next.Amount = x.Amount
	case 5:
		next.StateIndex++
	}
}

func foundryOf(r *g.Rand, f *iotago.FoundryOutput, s *iotago.SimpleTokenScheme) iotago.FoundryID {
	a, is := f.Owner().(*iotago.AccountAddress)
	if !is {
		a = &iotago.AccountAddress{byte(r.Intn(3))}
		f.UnlockConditions = iotago.FoundryOutputUnlockConditions{&iotago.ImmutableAccountUnlockCondition{Address: a}}
	}
	f.TokenScheme = s
	id, _ := f.FoundryID()
	return id
}

func small(r *g.Rand) *big.Int { return big.NewInt(int64(r.Intn(6))) }

func genScheme(r *g.Rand) *iotago.SimpleTokenScheme {
	return &iotago.SimpleTokenScheme{MintedTokens: small(r), MeltedTokens: small(r), MaximumSupply: big.NewInt(10)}
}

//gvc:nudge
func nudge_foundrySTVF_change(r *g.Rand, p *vm.Params, cur *iotago.FoundryOutput, next *iotago.FoundryOutput, cid iotago.ChainID, id *iotago.FoundryID) {
	a, b := genScheme(r), genScheme(r)
	*id = foundryOf(r, cur, a)
	imm := next.ImmutableFeatures
	*next = *cur
	if r.Intn(4) == 0 {
		next.ImmutableFeatures = imm
	}
	next.TokenScheme = b
	if r.Intn(8) == 0 {
		b.MaximumSupply = big.NewInt(int64(9 + r.Intn(3)))
	}
	if r.Intn(2) == 0 {
		b.MeltedTokens = a.MeltedTokens
	}
	p.WorkingSet.InNativeTokens, p.WorkingSet.OutNativeTokens = iotago.NativeTokenSum{}, iotago.NativeTokenSum{}
	in := int64(r.Intn(6))
	out := in + b.MintedTokens.Int64() - a.MintedTokens.Int64() - b.MeltedTokens.Int64() + a.MeltedTokens.Int64()
	if r.Intn(4) == 0 {
		out += int64(r.Intn(3) - 1)
	}
	if in > 0 || r.Intn(2) == 0 {
		p.WorkingSet.InNativeTokens[*id] = big.NewInt(in)
	}
	if out > 0 {
		p.WorkingSet.OutNativeTokens[*id] = big.NewInt(out)
	}
}

//gvc:nudge
func nudge_foundrySTVF_destroy(r *g.Rand, p *vm.Params, cur *iotago.FoundryOutput, cid iotago.ChainID, id *iotago.FoundryID) {
	a := genScheme(r)
	*id = foundryOf(r, cur, a)
	p.WorkingSet.InNativeTokens, p.WorkingSet.OutNativeTokens = iotago.NativeTokenSum{}, iotago.NativeTokenSum{}
	in := int64(r.Intn(6))
	out := in - a.MintedTokens.Int64() + a.MeltedTokens.Int64()
	if r.Intn(4) == 0 {
		out += int64(r.Intn(3) - 1)
	}
	if in > 0 {
		p.WorkingSet.InNativeTokens[*id] = big.NewInt(in)
	}
	if out > 0 {
		p.WorkingSet.OutNativeTokens[*id] = big.NewInt(out)
	}
	if r.Intn(4) > 0 {
		p.WorkingSet.Tx.Capabilities = iotago.TransactionCapabilitiesBitMask{0xff}
	}
}

//gvc:nudge
func nudge_foundrySTVF_genesis(r *g.Rand, p *vm.Params, next *iotago.FoundryOutput, id *iotago.FoundryID) {
	a := genScheme(r)
	if r.Intn(4) > 0 {
		a.MeltedTokens = big.NewInt(0)
	}
	ws := p.WorkingSet
	x, y := &iotago.AccountOutput{FoundryCounter: 4}, &iotago.AccountOutput{FoundryCounter: 4 + uint32(r.Intn(3))}
	next.SerialNumber = 4 + uint32(r.Intn(3))
	*id = foundryOf(r, next, a)
	acc, _ := accountOf(next)
	ws.InChains, ws.OutChains = vm.ChainInputSet{}, iotago.ChainOutputSet{}
	if r.Intn(8) > 0 {
		ws.InChains[acc] = &vm.ChainOutputWithIDs{ChainID: acc, Output: x}
	}
	if r.Intn(8) > 0 {
		ws.OutChains[acc] = y
	}
	ws.Tx.Outputs = nudgeFoundries(r, next, acc)
	ws.OutNativeTokens = iotago.NativeTokenSum{*id: new(big.Int).Set(a.MintedTokens)}
	if r.Intn(4) == 0 {
		ws.OutNativeTokens[*id] = small(r)
	}
}

func nudgeFoundries(r *g.Rand, cur *iotago.FoundryOutput, acc iotago.AccountID) (outs iotago.TxEssenceOutputs) {
	for i := r.Intn(3); i > 0; i-- {
		o := *cur
		o.SerialNumber = near(r, cur.SerialNumber)
		outs = append(outs, &o)
	}
	outs = append(outs, cur)
	for i := r.Intn(2); i > 0; i-- {
		o := *cur
		o.SerialNumber = near(r, cur.SerialNumber)
		outs = append(outs, &o)
	}
	return outs
}

//gvc:nudge
func nudge_foundrySerialNumberValid(r *g.Rand, p *vm.Params, cur *iotago.FoundryOutput, in *iotago.AccountOutput, out *iotago.AccountOutput, id *iotago.FoundryID) {
	cur.SerialNumber = 5
	in.FoundryCounter, out.FoundryCounter = uint32(3+r.Intn(3)), uint32(4+r.Intn(3))
	*id = foundryOf(r, cur, genScheme(r))
	acc, _ := accountOf(cur)
	p.WorkingSet.Tx.Outputs = nudgeFoundries(r, cur, acc)
	if r.Intn(2) == 0 {
		if f, is := p.WorkingSet.Tx.Outputs[0].(*iotago.FoundryOutput); is && f != cur {
			fid, _ := f.FoundryID()
			p.WorkingSet.InChains = vm.ChainInputSet{fid: nil}
		}
	}
}
