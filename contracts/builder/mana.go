package builder

import (
	iotago "github.com/iotaledger/iota.go/v4"
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

func builderOK(b *TransactionBuilder) bool {
	return b != nil && b.api != nil && b.transaction != nil && b.transaction.TransactionEssence != nil
}

// inputPotential: the mana an input has generated until a slot.
func inputPotential(b *TransactionBuilder, slot iotago.SlotIndex, id iotago.OutputID, in iotago.Output) g.Int {
	m, _ := iotago.PotentialMana(b.api.ManaDecayProvider(), b.api.StorageScoreStructure(), in, id.CreationSlot(), slot)

	return g.N(m)
}

// inputStored: what is left at a slot of the mana stored in an input.
func inputStored(b *TransactionBuilder, slot iotago.SlotIndex, id iotago.OutputID, in iotago.Output) g.Int {
	m, _ := b.api.ManaDecayProvider().DecayManaBySlots(in.StoredMana(), id.CreationSlot(), slot)

	return g.N(m)
}

func inputComputed(b *TransactionBuilder, slot iotago.SlotIndex, id iotago.OutputID, in iotago.Output) bool {
	_, e1 := iotago.PotentialMana(b.api.ManaDecayProvider(), b.api.StorageScoreStructure(), in, id.CreationSlot(), slot)
	_, e2 := b.api.ManaDecayProvider().DecayManaBySlots(in.StoredMana(), id.CreationSlot(), slot)

	return e1 == nil && e2 == nil
}

func boundTo(in iotago.Output, acc iotago.AccountID) bool {
	a, is := in.(*iotago.AccountOutput)

	return is && a.AccountID == acc
}

func isAccountOut(in iotago.Output) bool {
	_, is := in.(*iotago.AccountOutput)

	return is
}

//gvc:contract target=(*TransactionBuilder).CalculateAvailableManaInputs props=C22 stable opaque=PotentialMana,(*ManaDecayProvider).DecayManaBySlots,iface:(API).ManaDecayProvider,iface:(API).StorageScoreStructure
func c_CalculateAvailableManaInputs(b *TransactionBuilder, slot iotago.SlotIndex, acc iotago.AccountID) {
	g.Requires(builderOK(b))
	g.Requires(g.ForallMap(b.inputs, func(id iotago.OutputID, o iotago.Output) bool { return o != nil }))
	r, err := b.CalculateAvailableManaInputs(slot)
	if err != nil {
		return
	}
	pot := g.SumMap(b.inputs, func(id iotago.OutputID, o iotago.Output) g.Int { return inputPotential(b, slot, id, o) })
	stored := g.SumMap(b.inputs, func(id iotago.OutputID, o iotago.Output) g.Int { return inputStored(b, slot, id, o) })
	upot := g.SumMap(b.inputs, func(id iotago.OutputID, o iotago.Output) g.Int {
		return g.If(isAccountOut(o), g.N(0), inputPotential(b, slot, id, o))
	})
	ustored := g.SumMap(b.inputs, func(id iotago.OutputID, o iotago.Output) g.Int {
		return g.If(isAccountOut(o), g.N(0), inputStored(b, slot, id, o))
	})
	g.Ensures(g.ForallMap(b.inputs, func(id iotago.OutputID, o iotago.Output) bool { return inputComputed(b, slot, id, o) }), "the mana of every input was computed")
	g.Ensures(g.N(r.PotentialMana).Eq(pot) && g.N(r.StoredMana).Eq(stored), "the generated and the stored mana are the sums over the inputs")
	g.Ensures(g.N(r.TotalMana).Eq(pot.Add(stored)), "the total is the stored and the generated mana of the inputs")
	g.Ensures(g.N(r.UnboundPotentialMana).Eq(upot) && g.N(r.UnboundStoredMana).Eq(ustored), "the free mana is that of the inputs which are no accounts")
	g.Ensures(r.Rewards == b.rewards && g.N(r.UnboundMana).Eq(upot.Add(ustored).Add(g.N(b.rewards))), "the free mana includes the rewards")
	g.Ensures(g.N(r.AccountBoundMana[acc]).Eq(g.SumMap(b.inputs, func(id iotago.OutputID, o iotago.Output) g.Int {
		return g.If(boundTo(o, acc), inputPotential(b, slot, id, o).Add(inputStored(b, slot, id, o)), g.N(0))
	})), "the mana bound to an account is that of its outputs")
}

//gvc:invariant for=c_CalculateAvailableManaInputs
func inv_AvailMana1(b *TransactionBuilder, targetSlot iotago.SlotIndex, result *AvailableManaResult) bool {
	return g.N(result.PotentialMana).Eq(g.VisitedSum(b.inputs, func(id iotago.OutputID, o iotago.Output) g.Int { return inputPotential(b, targetSlot, id, o) })) &&
		g.N(result.StoredMana).Eq(g.VisitedSum(b.inputs, func(id iotago.OutputID, o iotago.Output) g.Int { return inputStored(b, targetSlot, id, o) }))
}

//gvc:invariant for=c_CalculateAvailableManaInputs
func inv_AvailMana2(b *TransactionBuilder, targetSlot iotago.SlotIndex, result *AvailableManaResult) bool {
	return g.N(result.UnboundPotentialMana).Eq(g.VisitedSum(b.inputs, func(id iotago.OutputID, o iotago.Output) g.Int {
		return g.If(isAccountOut(o), g.N(0), inputPotential(b, targetSlot, id, o))
	})) &&
		g.N(result.UnboundStoredMana).Eq(g.VisitedSum(b.inputs, func(id iotago.OutputID, o iotago.Output) g.Int {
			return g.If(isAccountOut(o), g.N(0), inputStored(b, targetSlot, id, o))
		}))
}

//gvc:invariant for=c_CalculateAvailableManaInputs
func inv_AvailMana3(result *AvailableManaResult) bool {
	return g.N(result.TotalMana).Eq(g.N(result.PotentialMana).Add(g.N(result.StoredMana))) && g.N(result.UnboundMana).Eq(g.N(result.UnboundPotentialMana).Add(g.N(result.UnboundStoredMana))) && result.Rewards == 0
}

//gvc:invariant for=c_CalculateAvailableManaInputs
func inv_AvailMana4(b *TransactionBuilder, targetSlot iotago.SlotIndex, result *AvailableManaResult, acc iotago.AccountID) bool {
	return g.N(result.AccountBoundMana[acc]).Eq(g.VisitedSum(b.inputs, func(id iotago.OutputID, o iotago.Output) g.Int {
		return g.If(boundTo(o, acc), inputPotential(b, targetSlot, id, o).Add(inputStored(b, targetSlot, id, o)), g.N(0))
	}))
}

//gvc:invariant for=c_CalculateAvailableManaInputs
func inv_AvailMana5(b *TransactionBuilder, targetSlot iotago.SlotIndex) bool {
	return g.VisitedForall(b.inputs, func(id iotago.OutputID, o iotago.Output) bool { return inputComputed(b, targetSlot, id, o) })
}

//gvc:contract target=(*TransactionBuilder).hasManalockCondition props=C22 stable opaque=(UnlockConditionSet).HasTimelockUntil,iface:(API).ProtocolParameters,iface:(ProtocolParameters).MaxCommittableAge
func c_hasManalockCondition(b *TransactionBuilder, o iotago.Output) {
	g.Requires(builderOK(b) && b.api.ProtocolParameters() != nil && o != nil)
	s := o.UnlockConditionSet()
	g.Requires(s.Address() == nil || s.Address().Address != nil)
	age := g.N(b.api.ProtocolParameters().MaxCommittableAge())
	min := g.N(b.transaction.CreationSlot).Add(age).Add(age)
	g.Requires(min.Lt(g.Pow2(32)))
	id, locked := b.hasManalockCondition(o)
	a, is := (*iotago.AccountAddress)(nil), false
	if s.Address() != nil {
		a, is = s.Address().Address.(*iotago.AccountAddress)
	}
	long := s.HasTimelockUntil(iotago.SlotIndex(b.transaction.CreationSlot + 2*b.api.ProtocolParameters().MaxCommittableAge()))
	g.Ensures(locked == (long && is), "mana is locked to an account iff the output belongs to an account and is locked for at least twice the maximum committable age")
	g.Ensures(!locked || id == iotago.AccountID(*a), "locked mana belongs to the account of the output")
	g.Ensures(locked || id == iotago.EmptyAccountID, "no account is given for mana which is not locked")
}

// outAcc: the account the mana of an output is bound to, if any.
func outAcc(b *TransactionBuilder, o iotago.Output) (iotago.AccountID, bool) {
	if a, is := o.(*iotago.AccountOutput); is {
		return a.AccountID, true
	}

	return b.hasManalockCondition(o)
}

func outTo(b *TransactionBuilder, o iotago.Output, acc iotago.AccountID) g.Int {
	id, bound := outAcc(b, o)

	return g.If(bound && id == acc, g.N(o.StoredMana()), g.N(0))
}

func outFree(b *TransactionBuilder, o iotago.Output) g.Int {
	_, bound := outAcc(b, o)

	return g.If(bound, g.N(0), g.N(o.StoredMana()))
}

func outOnly(b *TransactionBuilder, o iotago.Output, acc iotago.AccountID) bool {
	id, bound := outAcc(b, o)

	return !bound || id == acc || o.StoredMana() == 0
}

func allotTo(a *iotago.Allotment, acc iotago.AccountID) g.Int {
	return g.If(a.AccountID == acc, g.N(a.Mana), g.N(0))
}

func spentTo(b *TransactionBuilder, acc iotago.AccountID, n int, m int) g.Int {
	return g.Sum(0, n, func(k int) g.Int { return outTo(b, b.transaction.Outputs[k], acc) }).Add(g.Sum(0, m, func(k int) g.Int { return allotTo(b.transaction.Allotments[k], acc) }))
}

func spentFree(b *TransactionBuilder, n int) g.Int {
	return g.Sum(0, n, func(k int) g.Int { return outFree(b, b.transaction.Outputs[k]) })
}

// over: what is spent for an account beyond the mana bound to it.
func over(had g.Int, spent g.Int) g.Int {
	return g.If(spent.Le(had), g.N(0), spent.Sub(had))
}

func onlyAccount(b *TransactionBuilder, acc iotago.AccountID) bool {
	return g.Forall(0, len(b.transaction.Outputs), func(k int) bool { return outOnly(b, b.transaction.Outputs[k], acc) }) &&
		g.Forall(0, len(b.transaction.Allotments), func(k int) bool {
			return b.transaction.Allotments[k].AccountID == acc || b.transaction.Allotments[k].Mana == 0
		})
}

//gvc:contract target=(*TransactionBuilder).CalculateAvailableManaRemaining props=C22 stable opaque=(*builder.TransactionBuilder).CalculateAvailableManaInputs,(*builder.TransactionBuilder).hasManalockCondition
func c_CalculateAvailableManaRemaining(b *TransactionBuilder, slot iotago.SlotIndex, acc iotago.AccountID, free0 iotago.Mana, had iotago.Mana) {
	g.Requires(builderOK(b))
	g.Requires(g.Forall(0, len(b.transaction.Outputs), func(k int) bool { return b.transaction.Outputs[k] != nil }))
	g.Requires(g.Forall(0, len(b.transaction.Allotments), func(k int) bool { return b.transaction.Allotments[k] != nil }))
	in, e := b.CalculateAvailableManaInputs(slot)
	g.Requires(e == nil && in != nil && in.UnboundMana == free0 && in.AccountBoundMana[acc] == had)
	n, m := len(b.transaction.Outputs), len(b.transaction.Allotments)
	spent, free := spentTo(b, acc, n, m), spentFree(b, n)
	only := onlyAccount(b, acc)
	r, err := b.CalculateAvailableManaRemaining(slot)
	if err == nil {
		g.Ensures(g.N(r.AccountBoundMana[acc]).Eq(g.If(spent.Le(g.N(had)), g.N(had).Sub(spent), g.N(0))), "what remains bound to an account is what was bound to it minus what is stored in its outputs and allotted to it")
		g.Ensures(g.N(r.UnboundMana).Add(free).Add(over(g.N(had), spent)).Le(g.N(free0)), "free mana pays for free outputs and for what an account spends beyond its own")
		g.Ensures(!only || g.N(r.UnboundMana).Add(free).Add(over(g.N(had), spent)).Eq(g.N(free0)), "free mana pays for nothing else")
	} else {
		g.Ensures(!only || g.N(free0).Lt(free.Add(over(g.N(had), spent))), "only an over-spend is an error")
	}
}

//gvc:invariant for=c_CalculateAvailableManaRemaining
func inv_Remain1(b *TransactionBuilder, availableManaInputs *AvailableManaResult, acc iotago.AccountID, free0 iotago.Mana, had iotago.Mana, i int) bool {
	spent, free := spentTo(b, acc, i, 0), spentFree(b, i)
	bound := availableManaInputs.AccountBoundMana[acc]
	unbound := availableManaInputs.UnboundMana

	return g.N(bound).Eq(g.If(spent.Le(g.N(had)), g.N(had).Sub(spent), g.N(0))) &&
		g.N(unbound).Add(free).Add(over(g.N(had), spent)).Le(g.N(free0)) &&
		(!onlyAccount(b, acc) || g.N(unbound).Add(free).Add(over(g.N(had), spent)).Eq(g.N(free0)))
}

//gvc:invariant for=c_CalculateAvailableManaRemaining
func inv_Remain2(b *TransactionBuilder, availableManaInputs *AvailableManaResult, acc iotago.AccountID, free0 iotago.Mana, had iotago.Mana, i int) bool {
	n := len(b.transaction.Outputs)
	spent, free := spentTo(b, acc, n, i), spentFree(b, n)
	bound := availableManaInputs.AccountBoundMana[acc]
	unbound := availableManaInputs.UnboundMana

	return g.N(bound).Eq(g.If(spent.Le(g.N(had)), g.N(had).Sub(spent), g.N(0))) &&
		g.N(unbound).Add(free).Add(over(g.N(had), spent)).Le(g.N(free0)) &&
		(!onlyAccount(b, acc) || g.N(unbound).Add(free).Add(over(g.N(had), spent)).Eq(g.N(free0)))
}

//gvc:contract target=(*TransactionBuilder).IncreaseAllotment props=C22
func c_IncreaseAllotment(b *TransactionBuilder, acc iotago.AccountID, v iotago.Mana, x int, had iotago.Mana) {
	g.Requires(builderOK(b))
	g.Requires(g.Forall(0, len(b.transaction.Allotments), func(k int) bool { return b.transaction.Allotments[k] != nil }))
	g.Requires(g.Forall(0, len(b.transaction.Allotments), func(k int) bool {
		return g.Forall(0, k, func(l int) bool { return b.transaction.Allotments[k] != b.transaction.Allotments[l] })
	}))
	n := len(b.transaction.Allotments)
	exists := g.Exists(0, n, func(k int) bool { return b.transaction.Allotments[k].AccountID == acc })
	g.Requires(x >= 0 && x <= n)
	g.Requires(x == n || b.transaction.Allotments[x].Mana == had)
	g.Requires(x == n || g.Forall(0, x, func(k int) bool {
		return b.transaction.Allotments[k].AccountID != b.transaction.Allotments[x].AccountID
	}))
	g.Requires(g.N(had).Add(g.N(v)).Lt(g.Pow2(64)))
	b.IncreaseAllotment(acc, v)
	l := b.transaction.Allotments
	g.Ensures(len(l) == n || (len(l) == n+1 && !exists && v > 0), "an allotment is added only for an account which has none")
	if x < n {
		g.Ensures(g.N(l[x].Mana).Eq(g.N(had).Add(g.If(l[x].AccountID == acc, g.N(v), g.N(0)))), "the allotment of the account, and no other, grows by exactly the value")
	}
	g.Ensures(exists || v == 0 || (len(l) == n+1 && l[n].AccountID == acc && l[n].Mana == v), "an account without an allotment gets one of exactly the value")
}

//gvc:invariant for=c_IncreaseAllotment
func inv_IncreaseAllotment(b *TransactionBuilder, acc iotago.AccountID, i int) bool {
	return g.Forall(0, i, func(k int) bool { return b.transaction.Allotments[k].AccountID != acc })
}

//gvc:contract target=(*TransactionBuilder).getStoredManaOutputAccountID props=C22 stable opaque=(*builder.TransactionBuilder).hasManalockCondition
func c_getStoredManaOutputAccountID(b *TransactionBuilder, i int) {
	g.Requires(builderOK(b) && i >= 0)
	g.Requires(i >= len(b.transaction.Outputs) || b.transaction.Outputs[i] != nil)
	id, err := b.getStoredManaOutputAccountID(i)
	if err == nil {
		g.Ensures(i < len(b.transaction.Outputs), "the output exists")
		o := b.transaction.Outputs[i]
		acc, bound := outAcc(b, o)
		g.Ensures(id == acc || !bound && id == iotago.EmptyAccountID, "the account of an output is the account its mana is bound to")
	} else {
		g.Ensures(id == iotago.EmptyAccountID, "no account on error")
	}
}

func manaOf(o iotago.Output) iotago.Mana {
	switch o := o.(type) {
	case *iotago.BasicOutput:
		return o.Mana
	case *iotago.AccountOutput:
		return o.Mana
	case *iotago.AnchorOutput:
		return o.Mana
	case *iotago.NFTOutput:
		return o.Mana
	}

	return 0
}

func storesMana(o iotago.Output) bool {
	switch o.(type) {
	case *iotago.BasicOutput, *iotago.AccountOutput, *iotago.AnchorOutput, *iotago.NFTOutput:
		return true
	}

	return false
}

//gvc:contract target=(*TransactionBuilder).storeRemainingManaInOutput props=C22 stable opaque=(*builder.TransactionBuilder).CalculateAvailableManaRemaining
func c_storeRemainingManaInOutput(b *TransactionBuilder, slot iotago.SlotIndex, i int, acc iotago.AccountID) {
	g.Requires(builderOK(b) && i >= 0)
	g.Requires(i >= len(b.transaction.Outputs) || b.transaction.Outputs[i] != nil)
	r, e := b.CalculateAvailableManaRemaining(slot)
	g.Requires(e != nil || r != nil)
	if e != nil || i >= len(b.transaction.Outputs) {
		g.Ensures(b.storeRemainingManaInOutput(slot, i, acc) != nil, "nothing is stored if the remaining mana is not known or the output does not exist")

		return
	}
	o := b.transaction.Outputs[i]
	was := manaOf(o)
	rest := g.N(r.UnboundMana).Add(g.If(acc == iotago.EmptyAccountID, g.N(0), g.N(r.AccountBoundMana[acc])))
	g.Requires(g.N(was).Add(rest).Lt(g.Pow2(64)))
	err := b.storeRemainingManaInOutput(slot, i, acc)
	g.Ensures(err == nil, "the remaining mana is stored")
	g.Ensures(!storesMana(o) || g.N(manaOf(o)).Eq(g.N(was).Add(rest)), "the output gets exactly the remaining free mana and that of its account")
}

//gvc:contract target=(*TransactionBuilder).AddRewardInput props=C22
func c_AddRewardInput(b *TransactionBuilder, in *iotago.RewardInput, m iotago.Mana, was iotago.Mana) {
	g.Requires(builderOK(b) && b.rewards == was && g.N(was).Add(g.N(m)).Lt(g.Pow2(64)))
	r := b.AddRewardInput(in, m)
	g.Ensures(r == b && g.N(b.rewards).Eq(g.N(was).Add(g.N(m))), "a reward is added to the rewards exactly")
}

//gvc:contract target=(*TransactionBuilder).AddInput props=C22
func c_AddInput(b *TransactionBuilder, in *TxInput, id iotago.OutputID) {
	g.Requires(builderOK(b) && in != nil && b.inputs != nil && b.inputOwner != nil)
	was, had := b.inputs[id]
	b.AddInput(in)
	now, has := b.inputs[id]
	if id == in.InputID {
		g.Ensures(has && g.SameIface(now, in.Input), "the input is added")
	} else {
		g.Ensures(has == had && (!had || g.SameIface(now, was)), "no other input is changed")
	}
	l := b.transaction.TransactionEssence.Inputs
	g.Ensures(len(l) > 0, "the transaction spends the input")
}

func boundSum(r *AvailableManaResult, acc iotago.AccountID) g.Int {
	return g.SumMap(r.AccountBoundMana, func(id iotago.AccountID, m iotago.Mana) g.Int { return g.If(id == acc, g.N(m), g.N(0)) })
}

//gvc:contract target=(*TransactionBuilder).AllotAllMana props=C22 stable opaque=(*builder.TransactionBuilder).CalculateAvailableManaRemaining
func c_AllotAllMana(b *TransactionBuilder, slot iotago.SlotIndex, acc iotago.AccountID, min iotago.Mana) {
	g.Requires(builderOK(b) && b.occurredBuildErr == nil)
	g.Requires(g.Forall(0, len(b.transaction.Allotments), func(k int) bool { return b.transaction.Allotments[k] != nil }))
	r, e := b.CalculateAvailableManaRemaining(slot)
	g.Requires(e != nil || r != nil)
	if e != nil {
		b.AllotAllMana(slot, acc, min)
		g.Ensures(b.occurredBuildErr != nil, "an over-spend is an error")

		return
	}
	all := boundSum(r, acc).Add(g.N(r.UnboundMana))
	g.Requires(all.Lt(g.Pow2(64)))
	b.AllotAllMana(slot, acc, min)
	g.Ensures((b.occurredBuildErr == nil) == g.N(min).Le(all), "too little mana for the account is an error")
}

//gvc:invariant for=c_AllotAllMana
func inv_AllotAllMana(b *TransactionBuilder, remainingMana *AvailableManaResult, accountID iotago.AccountID, allottedManaAccountSum iotago.Mana) bool {
	return b.occurredBuildErr == nil && g.N(allottedManaAccountSum).Eq(g.VisitedSum(remainingMana.AccountBoundMana, func(id iotago.AccountID, m iotago.Mana) g.Int { return g.If(id == accountID, g.N(m), g.N(0)) }))
}

//gvc:contract target=NewTransactionBuilder props=C22 stable opaque=iface:(API).ProtocolParameters,iface:(ProtocolParameters).NetworkID
func c_NewTransactionBuilder(api iotago.API, s iotago.AddressSigner) {
	g.Requires(api != nil && api.ProtocolParameters() != nil)
	b := NewTransactionBuilder(api, s)
	g.Ensures(builderOK(b) && b.rewards == 0 && len(b.inputs) == 0 && len(b.transaction.Outputs) == 0 && len(b.transaction.Allotments) == 0, "a new builder has no mana and spends none")
	g.Ensures(b.transaction.NetworkID == api.ProtocolParameters().NetworkID(), "a transaction is built for the network of the builder")
}

// nudgeBuilder gives a builder inputs and outputs with mana bound to an account.
func nudgeBuilder(r *g.Rand, b *TransactionBuilder, slot *iotago.SlotIndex, acc *iotago.AccountID) {
	*slot %= 1 << 20
	b.occurredBuildErr = nil
	b.rewards = iotago.Mana(r.Intn(20))
	b.inputs = iotago.OutputSet{}
	id := func() iotago.AccountID {
		a := *acc
		if r.Intn(4) == 0 {
			a[3]++
		}
		return a
	}
	output := func() iotago.Output {
		m := iotago.Mana(r.Intn(60))
		switch r.Intn(4) {
		case 0, 1:
			return &iotago.AccountOutput{Mana: m, AccountID: id()}
		case 2:
			a := iotago.AccountAddress(id())
			return &iotago.BasicOutput{Mana: m, UnlockConditions: iotago.BasicOutputUnlockConditions{
				&iotago.AddressUnlockCondition{Address: &a},
				&iotago.TimelockUnlockCondition{Slot: b.transaction.CreationSlot + 2*b.api.ProtocolParameters().MaxCommittableAge() - iotago.SlotIndex(r.Intn(2))},
			}}
		default:
			return &iotago.BasicOutput{Mana: m}
		}
	}
	for i := r.Intn(3) + 1; i > 0; i-- {
		in := output()
		b.inputs[iotago.OutputIDFromTransactionIDAndIndex(iotago.NewTransactionID(*slot, iotago.Identifier{byte(i)}), 0)] = in
	}
	b.transaction.Outputs = nil
	for i := r.Intn(4); i > 0; i-- {
		b.transaction.Outputs = append(b.transaction.Outputs, output())
	}
	b.transaction.Allotments = nil
	for i := r.Intn(3); i > 0; i-- {
		b.transaction.Allotments = append(b.transaction.Allotments, &iotago.Allotment{AccountID: id(), Mana: iotago.Mana(r.Intn(40))})
	}
}

//gvc:nudge
func nudge_CalculateAvailableManaInputs(r *g.Rand, b *TransactionBuilder, slot *iotago.SlotIndex, acc *iotago.AccountID) {
	nudgeBuilder(r, b, slot, acc)
	*slot += iotago.SlotIndex(r.Intn(3))
}

//gvc:nudge
func nudge_CalculateAvailableManaRemaining(r *g.Rand, b *TransactionBuilder, slot *iotago.SlotIndex, acc *iotago.AccountID, free0 *iotago.Mana, had *iotago.Mana) {
	nudgeBuilder(r, b, slot, acc)
	in, _ := b.CalculateAvailableManaInputs(*slot)
	*free0, *had = in.UnboundMana, in.AccountBoundMana[*acc]
}

//gvc:nudge
func nudge_storeRemainingManaInOutput(r *g.Rand, b *TransactionBuilder, slot *iotago.SlotIndex, i *int, acc *iotago.AccountID) {
	nudgeBuilder(r, b, slot, acc)
	*i = r.Intn(len(b.transaction.Outputs) + 1)
}

//gvc:nudge
func nudge_AllotAllMana(r *g.Rand, b *TransactionBuilder, slot *iotago.SlotIndex, acc *iotago.AccountID, min *iotago.Mana) {
	nudgeBuilder(r, b, slot, acc)
	*min = iotago.Mana(r.Intn(80))
}

//gvc:nudge
func nudge_getStoredManaOutputAccountID(r *g.Rand, b *TransactionBuilder, i *int) {
	var slot iotago.SlotIndex
	var acc iotago.AccountID
	nudgeBuilder(r, b, &slot, &acc)
	*i = r.Intn(len(b.transaction.Outputs) + 1)
}

//gvc:nudge
func nudge_hasManalockCondition(r *g.Rand, b *TransactionBuilder, o *iotago.Output) {
	var slot iotago.SlotIndex
	var acc iotago.AccountID
	b.transaction.CreationSlot %= 1 << 20
	nudgeBuilder(r, b, &slot, &acc)
	if len(b.transaction.Outputs) > 0 {
		*o = b.transaction.Outputs[0]
	}
}

//gvc:nudge
func nudge_AddRewardInput(r *g.Rand, b *TransactionBuilder, in *iotago.RewardInput, m iotago.Mana, was *iotago.Mana) {
	*was = b.rewards
}

//gvc:nudge
func nudge_IncreaseAllotment(r *g.Rand, b *TransactionBuilder, acc iotago.AccountID, v *iotago.Mana, x *int, had *iotago.Mana) {
	*v %= 100
	b.transaction.Allotments = nil
	for i := r.Intn(4); i > 0; i-- {
		a := acc
		a[2] = byte(i) + byte(r.Intn(4))
		if r.Intn(3) == 0 {
			a = acc
		}
		b.transaction.Allotments = append(b.transaction.Allotments, &iotago.Allotment{AccountID: a, Mana: iotago.Mana(r.Intn(40))})
	}
	*x = r.Intn(len(b.transaction.Allotments) + 1)
	if *x < len(b.transaction.Allotments) {
		*had = b.transaction.Allotments[*x].Mana
	}
}

// allotted: the first allotment to an account is the one at x; l are the allotments up to it.
func allotted(b *TransactionBuilder, x int, acc iotago.AccountID, l iotago.Allotments) bool {
	c := b.transaction.Allotments

	return x >= 0 && x < len(c) && x < len(l) && g.Forall(0, len(c), func(k int) bool { return c[k] != nil }) && g.Forall(0, x+1, func(k int) bool { return c[k] == l[k] && l[k] != nil }) &&
		l[x].AccountID == acc && g.Forall(0, x, func(k int) bool { return l[k].AccountID != acc })
}

//gvc:contract target=(*TransactionBuilder).AllotAllMana props=C22 stable opaque=(*builder.TransactionBuilder).CalculateAvailableManaRemaining
func c_AllotAllMana_each(b *TransactionBuilder, slot iotago.SlotIndex, acc iotago.AccountID, min iotago.Mana, x int, of iotago.AccountID, had iotago.Mana, l0 iotago.Allotments) {
	g.Requires(builderOK(b) && allotted(b, x, of, l0) && b.transaction.Allotments[x].Mana == had)
	r, e := b.CalculateAvailableManaRemaining(slot)
	g.Requires(e == nil && r != nil)
	gets := boundSum(r, of).Add(g.If(of == acc, g.N(r.UnboundMana), g.N(0)))
	g.Requires(g.N(had).Add(gets).Lt(g.Pow2(64)))
	b.AllotAllMana(slot, acc, min)
	l := b.transaction.Allotments
	g.Ensures(len(l) > x && l[x].AccountID == of && g.N(l[x].Mana).Eq(g.N(had).Add(gets)), "an account is allotted all that remains bound to it, and the given account all free mana")
}

//gvc:invariant for=c_AllotAllMana_each
func inv_AllotAllMana_each1a(b *TransactionBuilder, x int, of iotago.AccountID, l0 iotago.Allotments) bool {
	return b.transaction != nil && x >= 0 && x < len(b.transaction.Allotments)
}

//gvc:invariant for=c_AllotAllMana_each
func inv_AllotAllMana_each1b(b *TransactionBuilder, x int, of iotago.AccountID, l0 iotago.Allotments) bool {
	return g.Forall(0, len(b.transaction.Allotments), func(k int) bool { return b.transaction.Allotments[k] != nil })
}

//gvc:invariant for=c_AllotAllMana_each
func inv_AllotAllMana_each1c(b *TransactionBuilder, x int, of iotago.AccountID, l0 iotago.Allotments) bool {
	return g.Forall(0, x+1, func(k int) bool { return b.transaction.Allotments[k] == l0[k] })
}

//gvc:invariant for=c_AllotAllMana_each
func inv_AllotAllMana_each1d(b *TransactionBuilder, x int, of iotago.AccountID, l0 iotago.Allotments) bool {
	return l0[x].AccountID == of && g.Forall(0, x, func(k int) bool { return l0[k].AccountID != of })
}

//gvc:invariant for=c_AllotAllMana_each
func inv_AllotAllMana_each2(b *TransactionBuilder, remainingMana *AvailableManaResult, x int, of iotago.AccountID, had iotago.Mana, l0 iotago.Allotments) bool {
	return g.N(l0[x].Mana).Eq(g.N(had).Add(g.VisitedSum(remainingMana.AccountBoundMana, func(id iotago.AccountID, m iotago.Mana) g.Int { return g.If(id == of, g.N(m), g.N(0)) })))
}

//gvc:invariant for=c_AllotAllMana_each
func inv_AllotAllMana_each3(b *TransactionBuilder, accountID iotago.AccountID, i int) bool {
	return g.Forall(0, i, func(k int) bool { return b.transaction.Allotments[k].AccountID != accountID })
}

//gvc:contract target=(*TransactionBuilder).AllotRemainingAccountBoundMana props=C22 stable opaque=(*builder.TransactionBuilder).CalculateAvailableManaRemaining
func c_AllotRemaining_each(b *TransactionBuilder, slot iotago.SlotIndex, ignore []iotago.AccountID, x int, of iotago.AccountID, had iotago.Mana, l0 iotago.Allotments) {
	g.Requires(builderOK(b) && b.occurredBuildErr == nil && allotted(b, x, of, l0) && b.transaction.Allotments[x].Mana == had)
	r, e := b.CalculateAvailableManaRemaining(slot)
	g.Requires(e != nil || r != nil)
	if e != nil {
		b.AllotRemainingAccountBoundMana(slot, nil, ignore...)
		g.Ensures(b.occurredBuildErr != nil && b.transaction.Allotments[x].Mana == had, "an over-spend is an error")

		return
	}
	g.Requires(g.Forall(0, len(ignore), func(k int) bool { return ignore[k] != of }))
	g.Requires(g.N(had).Add(boundSum(r, of)).Lt(g.Pow2(64)))
	b.AllotRemainingAccountBoundMana(slot, nil, ignore...)
	l := b.transaction.Allotments
	g.Ensures(len(l) > x && l[x].AccountID == of && g.N(l[x].Mana).Eq(g.N(had).Add(boundSum(r, of))), "an account is allotted all that remains bound to it")
	g.Ensures(b.occurredBuildErr == nil, "allotting the remainder is no error")
}

//gvc:invariant for=c_AllotRemaining_each
func inv_AllotRemaining_each1a(b *TransactionBuilder, x int, of iotago.AccountID, l0 iotago.Allotments) bool {
	return b.transaction != nil && x >= 0 && x < len(b.transaction.Allotments)
}

//gvc:invariant for=c_AllotRemaining_each
func inv_AllotRemaining_each1b(b *TransactionBuilder, x int, of iotago.AccountID, l0 iotago.Allotments) bool {
	return g.Forall(0, len(b.transaction.Allotments), func(k int) bool { return b.transaction.Allotments[k] != nil })
}

//gvc:invariant for=c_AllotRemaining_each
func inv_AllotRemaining_each1c(b *TransactionBuilder, x int, of iotago.AccountID, l0 iotago.Allotments) bool {
	return g.Forall(0, x+1, func(k int) bool { return b.transaction.Allotments[k] == l0[k] })
}

//gvc:invariant for=c_AllotRemaining_each
func inv_AllotRemaining_each1d(b *TransactionBuilder, x int, of iotago.AccountID, l0 iotago.Allotments) bool {
	return l0[x].AccountID == of && g.Forall(0, x, func(k int) bool { return l0[k].AccountID != of })
}

//gvc:invariant for=c_AllotRemaining_each
func inv_AllotRemaining_each1e(b *TransactionBuilder, x int, of iotago.AccountID, l0 iotago.Allotments) bool {
	return b.occurredBuildErr == nil
}

//gvc:invariant for=c_AllotRemaining_each
func inv_AllotRemaining_each2(b *TransactionBuilder, remainingMana *AvailableManaResult, x int, of iotago.AccountID, had iotago.Mana, l0 iotago.Allotments) bool {
	return g.N(l0[x].Mana).Eq(g.N(had).Add(g.VisitedSum(remainingMana.AccountBoundMana, func(id iotago.AccountID, m iotago.Mana) g.Int {
		return g.If(id == of, g.N(m), g.N(0))
	})))
}

//gvc:invariant for=c_AllotRemaining_each
func inv_AllotRemaining_each3(b *TransactionBuilder, accountID iotago.AccountID, i int) bool {
	return g.Forall(0, i, func(k int) bool { return b.transaction.Allotments[k].AccountID != accountID })
}

//gvc:invariant for=c_AllotRemaining_each
func inv_AllotRemaining_each4(ignoreAccountIDs []iotago.AccountID, accountID iotago.AccountID, i int) bool {
	return g.Forall(0, i, func(k int) bool { return ignoreAccountIDs[k] != accountID })
}

//gvc:contract target=(*TransactionBuilder).AllotRemainingAccountBoundMana props=C22 stable opaque=(*builder.TransactionBuilder).CalculateAvailableManaRemaining
func c_AllotRemaining_kept(b *TransactionBuilder, slot iotago.SlotIndex, ignore []iotago.AccountID, x int, of iotago.AccountID, had iotago.Mana, l0 iotago.Allotments, j int) {
	g.Requires(builderOK(b) && b.occurredBuildErr == nil && allotted(b, x, of, l0) && b.transaction.Allotments[x].Mana == had)
	r, e := b.CalculateAvailableManaRemaining(slot)
	g.Requires(e != nil || r != nil)
	if e != nil {
		b.AllotRemainingAccountBoundMana(slot, nil, ignore...)
		g.Ensures(b.occurredBuildErr != nil && b.transaction.Allotments[x].Mana == had, "an over-spend is an error")

		return
	}
	g.Requires(j >= 0 && j < len(ignore) && ignore[j] == of)
	g.Requires(g.N(had).Add(boundSum(r, of)).Lt(g.Pow2(64)))
	b.AllotRemainingAccountBoundMana(slot, nil, ignore...)
	l := b.transaction.Allotments
	g.Ensures(len(l) > x && l[x].AccountID == of && g.N(l[x].Mana).Eq(g.N(had)), "an excepted account is allotted nothing more")
	g.Ensures(b.occurredBuildErr == nil, "allotting the remainder is no error")
}

//gvc:invariant for=c_AllotRemaining_kept
func inv_AllotRemaining_kept1a(b *TransactionBuilder, x int, of iotago.AccountID, l0 iotago.Allotments) bool {
	return b.transaction != nil && x >= 0 && x < len(b.transaction.Allotments)
}

//gvc:invariant for=c_AllotRemaining_kept
func inv_AllotRemaining_kept1b(b *TransactionBuilder, x int, of iotago.AccountID, l0 iotago.Allotments) bool {
	return g.Forall(0, len(b.transaction.Allotments), func(k int) bool { return b.transaction.Allotments[k] != nil })
}

//gvc:invariant for=c_AllotRemaining_kept
func inv_AllotRemaining_kept1c(b *TransactionBuilder, x int, of iotago.AccountID, l0 iotago.Allotments) bool {
	return g.Forall(0, x+1, func(k int) bool { return b.transaction.Allotments[k] == l0[k] })
}

//gvc:invariant for=c_AllotRemaining_kept
func inv_AllotRemaining_kept1d(b *TransactionBuilder, x int, of iotago.AccountID, l0 iotago.Allotments) bool {
	return l0[x].AccountID == of && g.Forall(0, x, func(k int) bool { return l0[k].AccountID != of })
}

//gvc:invariant for=c_AllotRemaining_kept
func inv_AllotRemaining_kept1e(b *TransactionBuilder, x int, of iotago.AccountID, l0 iotago.Allotments) bool {
	return b.occurredBuildErr == nil
}

//gvc:invariant for=c_AllotRemaining_kept
func inv_AllotRemaining_kept2(b *TransactionBuilder, remainingMana *AvailableManaResult, x int, of iotago.AccountID, had iotago.Mana, l0 iotago.Allotments) bool {
	return l0[x].Mana == had
}

//gvc:invariant for=c_AllotRemaining_kept
func inv_AllotRemaining_kept3(b *TransactionBuilder, accountID iotago.AccountID, i int) bool {
	return g.Forall(0, i, func(k int) bool { return b.transaction.Allotments[k].AccountID != accountID })
}

//gvc:invariant for=c_AllotRemaining_kept
func inv_AllotRemaining_kept4(ignoreAccountIDs []iotago.AccountID, accountID iotago.AccountID, i int) bool {
	return g.Forall(0, i, func(k int) bool { return ignoreAccountIDs[k] != accountID })
}

//gvc:nudge
func nudge_AllotAllMana_each(r *g.Rand, b *TransactionBuilder, slot *iotago.SlotIndex, acc *iotago.AccountID, min *iotago.Mana, x *int, of *iotago.AccountID, had *iotago.Mana, l0 *iotago.Allotments) {
	nudgeBuilder(r, b, slot, acc)
	*of = *acc
	if r.Intn(3) == 0 {
		of[3]++
	}
	*x = len(b.transaction.Allotments)
	b.transaction.Allotments = append(b.transaction.Allotments, &iotago.Allotment{AccountID: *of, Mana: iotago.Mana(r.Intn(2))})
	for k := *x; k >= 0; k-- {
		if b.transaction.Allotments[k].AccountID == *of {
			*x = k
		}
	}
	*had = b.transaction.Allotments[*x].Mana
	*l0 = append(iotago.Allotments{}, b.transaction.Allotments...)
}

//gvc:nudge
func nudge_AllotRemaining_each(r *g.Rand, b *TransactionBuilder, slot *iotago.SlotIndex, ignore *[]iotago.AccountID, x *int, of *iotago.AccountID, had *iotago.Mana, l0 *iotago.Allotments) {
	nudgeBuilder(r, b, slot, of)
	*x = len(b.transaction.Allotments)
	b.transaction.Allotments = append(b.transaction.Allotments, &iotago.Allotment{AccountID: *of, Mana: iotago.Mana(r.Intn(2))})
	for k := *x; k >= 0; k-- {
		if b.transaction.Allotments[k].AccountID == *of {
			*x = k
		}
	}
	*had = b.transaction.Allotments[*x].Mana
	*l0 = append(iotago.Allotments{}, b.transaction.Allotments...)
	*ignore = nil
	for i := r.Intn(3); i > 0; i-- {
		id := *of
		id[3] += byte(i)
		if r.Intn(3) == 0 {
			id = iotago.EmptyAccountID
		}
		*ignore = append(*ignore, id)
	}
}

//gvc:nudge
func nudge_AllotRemaining_kept(r *g.Rand, b *TransactionBuilder, slot *iotago.SlotIndex, ignore *[]iotago.AccountID, x *int, of *iotago.AccountID, had *iotago.Mana, l0 *iotago.Allotments, j *int) {
	nudge_AllotRemaining_each(r, b, slot, ignore, x, of, had, l0)
	*j = len(*ignore)
	*ignore = append(*ignore, *of)
}
