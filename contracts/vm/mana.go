package vm

import (
	iotago "github.com/iotaledger/iota.go/v4"
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// specInputMana: the decayed stored mana plus the potential mana of an input.
func specInputMana(p *iotago.ManaDecayProvider, s *iotago.StorageScoreStructure, slot iotago.SlotIndex, id iotago.OutputID, in iotago.Output) g.Int {
	stored, _ := p.DecayManaBySlots(in.StoredMana(), id.CreationSlot(), slot)
	min, err := s.MinDeposit(in)
	if err != nil || in.BaseTokenAmount() < min {
		return g.N(stored)
	}
	pot, _ := p.GenerateManaAndDecayBySlots(in.BaseTokenAmount()-min, id.CreationSlot(), slot)
	return g.N(stored).Add(g.N(pot))
}

func specInputOK(p *iotago.ManaDecayProvider, s *iotago.StorageScoreStructure, slot iotago.SlotIndex, id iotago.OutputID, in iotago.Output) bool {
	_, e1 := p.DecayManaBySlots(in.StoredMana(), id.CreationSlot(), slot)
	min, e2 := s.MinDeposit(in)
	if e1 != nil || e2 != nil {
		return false
	}
	if in.BaseTokenAmount() < min {
		return true
	}
	_, e3 := p.GenerateManaAndDecayBySlots(in.BaseTokenAmount()-min, id.CreationSlot(), slot)
	return e3 == nil
}

//gvc:contract target=TotalManaIn props=C04 opaque=(*ManaDecayProvider).DecayManaBySlots,(*ManaDecayProvider).GenerateManaAndDecayBySlots,(*StorageScoreStructure).MinDeposit
func c_TotalManaIn(p *iotago.ManaDecayProvider, s *iotago.StorageScoreStructure, slot iotago.SlotIndex, in InputSet, rewards RewardsInputSet) {
	g.Requires(p != nil && s != nil)
	g.Requires(g.ForallMap(in, func(id iotago.OutputID, o iotago.Output) bool { return o != nil }))
	r, err := TotalManaIn(p, s, slot, in, rewards)
	if err == nil {
		g.Ensures(g.ForallMap(in, func(id iotago.OutputID, o iotago.Output) bool { return specInputOK(p, s, slot, id, o) }), "the mana of every input was computed")
		g.Ensures(g.N(r).Eq(g.SumMap(in, func(id iotago.OutputID, o iotago.Output) g.Int { return specInputMana(p, s, slot, id, o) }).Add(g.SumMap(rewards, func(id iotago.ChainID, m iotago.Mana) g.Int { return g.N(m) }))), "the mana on the input side is the exact sum of the inputs' decayed stored and potential mana and the rewards")
	} else {
		g.Ensures(r == 0, "no mana on error")
	}
}

//gvc:invariant for=c_TotalManaIn
func inv_TotalManaIn1(manaDecayProvider *iotago.ManaDecayProvider, storageScoreStructure *iotago.StorageScoreStructure, txCreationSlot iotago.SlotIndex, inputSet InputSet, totalIn iotago.Mana) bool {
	return g.N(totalIn).Eq(g.VisitedSum(inputSet, func(id iotago.OutputID, o iotago.Output) g.Int {
		return specInputMana(manaDecayProvider, storageScoreStructure, txCreationSlot, id, o)
	}))
}

//gvc:invariant for=c_TotalManaIn
func inv_TotalManaIn1b(manaDecayProvider *iotago.ManaDecayProvider, storageScoreStructure *iotago.StorageScoreStructure, txCreationSlot iotago.SlotIndex, inputSet InputSet) bool {
	return g.VisitedForall(inputSet, func(id iotago.OutputID, o iotago.Output) bool {
		return specInputOK(manaDecayProvider, storageScoreStructure, txCreationSlot, id, o)
	})
}

//gvc:invariant for=c_TotalManaIn
func inv_TotalManaIn2(manaDecayProvider *iotago.ManaDecayProvider, storageScoreStructure *iotago.StorageScoreStructure, txCreationSlot iotago.SlotIndex, inputSet InputSet, rewards RewardsInputSet, totalIn iotago.Mana) bool {
	return g.N(totalIn).Eq(g.SumMap(inputSet, func(id iotago.OutputID, o iotago.Output) g.Int {
		return specInputMana(manaDecayProvider, storageScoreStructure, txCreationSlot, id, o)
	}).Add(g.VisitedSum(rewards, func(id iotago.ChainID, m iotago.Mana) g.Int { return g.N(m) })))
}

//gvc:contract target=TotalManaOut props=C04
func c_TotalManaOut(outputs iotago.Outputs[iotago.TxEssenceOutput], allotments iotago.Allotments) {
	g.Requires(g.Forall(0, len(outputs), func(i int) bool { return outputs[i] != nil }) && g.Forall(0, len(allotments), func(i int) bool { return allotments[i] != nil }))
	r, err := TotalManaOut(outputs, allotments)
	sum := g.Sum(0, len(outputs), func(i int) g.Int { return g.N(outputs[i].StoredMana()) }).Add(g.Sum(0, len(allotments), func(i int) g.Int { return g.N(allotments[i].Mana) }))
	g.Ensures((err == nil) == sum.Lt(g.Pow2(64)), "an error exactly when the sum does not fit in 64 bits")
	g.Ensures(g.Implies(err == nil, g.N(r).Eq(sum)), "the mana on the output side is the exact sum of stored and allotted mana")
}

//gvc:invariant for=c_TotalManaOut
func inv_TotalManaOut1(outputs iotago.Outputs[iotago.TxEssenceOutput], totalOut iotago.Mana, i int) bool {
	return g.N(totalOut).Eq(g.Sum(0, i, func(k int) g.Int { return g.N(outputs[k].StoredMana()) }))
}

//gvc:invariant for=c_TotalManaOut
func inv_TotalManaOut2(outputs iotago.Outputs[iotago.TxEssenceOutput], allotments iotago.Allotments, totalOut iotago.Mana, i int) bool {
	return g.N(totalOut).Eq(g.Sum(0, len(outputs), func(k int) g.Int { return g.N(outputs[k].StoredMana()) }).Add(g.Sum(0, i, func(k int) g.Int { return g.N(allotments[k].Mana) })))
}

//gvc:contract target=ExecFuncBalancedMana props=C04
func c_ExecFuncBalancedMana(p *Params) {
	g.Requires(p != nil && p.WorkingSet != nil && p.WorkingSet.Tx != nil && p.WorkingSet.Tx.TransactionEssence != nil)
	ws := p.WorkingSet
	err := ExecFuncBalancedMana()(nil, p)
	g.Ensures(g.Implies(err == nil, g.ForallMap(ws.UTXOInputsSet, func(id iotago.OutputID, o iotago.Output) bool { return id.CreationSlot() <= ws.Tx.CreationSlot })), "no input is younger than the transaction")
	g.Ensures(g.Implies(err == nil, ws.TotalManaOut <= ws.TotalManaIn), "mana is never created")
	g.Ensures(g.Implies(err == nil && ws.TotalManaOut < ws.TotalManaIn, !ws.Tx.Capabilities.CannotBurnMana()), "mana is burned only if the transaction says so")
	g.Ensures(g.Implies(err != nil, g.ExistsMap(ws.UTXOInputsSet, func(id iotago.OutputID, o iotago.Output) bool { return id.CreationSlot() > ws.Tx.CreationSlot }) || ws.TotalManaOut > ws.TotalManaIn || ws.TotalManaOut < ws.TotalManaIn && ws.Tx.Capabilities.CannotBurnMana()), "nothing else is rejected")
}

//gvc:invariant for=c_ExecFuncBalancedMana
func inv_ExecFuncBalancedMana(vmParams *Params) bool {
	return g.VisitedForall(vmParams.WorkingSet.UTXOInputsSet, func(id iotago.OutputID, o iotago.Output) bool {
		return id.CreationSlot() <= vmParams.WorkingSet.Tx.CreationSlot
	})
}
