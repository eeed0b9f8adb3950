package vm

import (
	iotago "github.com/iotaledger/iota.go/v4"
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

var _ iotago.Address

//gvc:contract target=(UnlockedAddresses).UnlockedBy props=C03,C06
func c_UnlockedBy(u UnlockedAddresses, index uint16, key string) {
	e, has := u[key]
	g.Requires(!has || e != nil)
	r := u.UnlockedBy(index, key)
	if !has {
		g.Ensures(!r, "an address that was not unlocked unlocks nothing")
	} else {
		_, ref := e.ReferencedByInputIndex[index]
		g.Ensures(r == (e.UnlockedAtInputIndex == index || ref), "an address unlocks the input it was unlocked at and those that refer to it")
	}
}

//gvc:contract target=(*unlockedAddressesSet).SignatureUnlock props=C06 stable opaque=iface:(DirectUnlockableAddress).Unlock,iface:(Address).Key
func c_SignatureUnlock(s *unlockedAddressesSet, addr iotago.DirectUnlockableAddress, msg []byte, sig iotago.Signature, index uint16, checkOnly bool, key string, other uint16) {
	g.Requires(s != nil && addr != nil && s.SignatureUnlockedAddrsByIndex != nil && s.UnlockedAddrsByAddrKey != nil)
	was, had := s.UnlockedAddrsByAddrKey[key]
	wasSig, hadSig := s.SignatureUnlockedAddrsByIndex[other]
	valid := addr.Unlock(msg, sig) == nil
	err := s.SignatureUnlock(addr, msg, sig, index, checkOnly)
	g.Ensures((err == nil) == valid, "an address is unlocked by a signature iff the signature is valid")
	now, has := s.UnlockedAddrsByAddrKey[key]
	nowSig, hasSig := s.SignatureUnlockedAddrsByIndex[other]
	if valid && !checkOnly {
		if key == addr.Key() {
			g.Ensures(has && now != nil && now.UnlockedAtInputIndex == index && g.SameIface(now.Address, addr), "the address is recorded as unlocked at the input")
		} else {
			g.Ensures(has == had && now == was, "no other address is unlocked")
		}
		if other == index {
			g.Ensures(hasSig && nowSig != nil && g.SameIface(nowSig.Signature, sig) && nowSig.UnlockedAddress != nil && nowSig.UnlockedAtInputIndex == index, "the signature is recorded for the input")
		} else {
			g.Ensures(hasSig == hadSig && nowSig == wasSig, "no other signature is recorded")
		}
	} else {
		g.Ensures(has == had && now == was && hasSig == hadSig && nowSig == wasSig, "nothing is recorded otherwise")
	}
}

// setOK: the entries are not nil and have sets of references.
func setOK(s *unlockedAddressesSet) bool {
	return s != nil && s.SignatureUnlockedAddrsByIndex != nil && s.UnlockedAddrsByAddrKey != nil &&
		g.ForallMap(s.UnlockedAddrsByAddrKey, func(_ string, u *UnlockedAddress) bool { return u != nil && u.ReferencedByInputIndex != nil }) &&
		g.ForallMap(s.SignatureUnlockedAddrsByIndex, func(_ uint16, u *unlockedAddressWithSignature) bool {
			return u != nil && u.UnlockedAddress != nil && u.ReferencedByInputIndex != nil && u.Signature != nil
		})
}

//gvc:contract target=(*unlockedAddressesSet).ReferentialUnlockNonDirectlyUnlockable props=C06 stable opaque=iface:(Address).Key
func c_ReferentialUnlockNonDirectlyUnlockable(s *unlockedAddressesSet, owner iotago.Address, index uint16, ref uint16, checkOnly bool, key string, other uint16) {
	g.Requires(setOK(s) && owner != nil)
	was, had := s.UnlockedAddrsByAddrKey[key]
	wasSig, hadSig := s.SignatureUnlockedAddrsByIndex[other]
	u, known := s.UnlockedAddrsByAddrKey[owner.Key()]
	_, direct := owner.(iotago.DirectUnlockableAddress)
	err := s.ReferentialUnlockNonDirectlyUnlockable(owner, index, ref, checkOnly)
	if known {
		g.Ensures((err == nil) == (!direct && u.UnlockedAtInputIndex == ref), "an address is unlocked by reference iff it was unlocked at the referenced input")
	} else {
		g.Ensures(err != nil, "an address which was not unlocked before is not unlocked by reference")
	}
	now, has := s.UnlockedAddrsByAddrKey[key]
	nowSig, hasSig := s.SignatureUnlockedAddrsByIndex[other]
	g.Ensures(has == had && now == was && hasSig == hadSig && nowSig == wasSig, "no address becomes unlocked and no signature is recorded")
	if err == nil && !checkOnly {
		_, recorded := u.ReferencedByInputIndex[index]
		g.Ensures(recorded, "the reference is recorded")
	}
}

//gvc:contract target=(*unlockedAddressesSet).ReferentialUnlockDirectlyUnlockable props=C06 stable opaque=iface:(Address).Key,iface:(Signature).MatchesAddress
func c_ReferentialUnlockDirectlyUnlockable(s *unlockedAddressesSet, owner iotago.DirectUnlockableAddress, index uint16, ref uint16, checkOnly bool, key string, other uint16) {
	g.Requires(setOK(s) && owner != nil)
	was, had := s.UnlockedAddrsByAddrKey[key]
	wasSig, hadSig := s.SignatureUnlockedAddrsByIndex[other]
	u, known := s.SignatureUnlockedAddrsByIndex[ref]
	at, fits := uint16(0), false
	if known {
		at, fits = u.UnlockedAtInputIndex, u.Signature.MatchesAddress(owner)
	}
	err := s.ReferentialUnlockDirectlyUnlockable(owner, index, ref, checkOnly)
	g.Ensures((err == nil) == (known && at == ref && fits), "an address is unlocked by reference iff the referenced input was unlocked by a signature of its owner")
	now, has := s.UnlockedAddrsByAddrKey[key]
	nowSig, hasSig := s.SignatureUnlockedAddrsByIndex[other]
	g.Ensures(hasSig == hadSig && nowSig == wasSig, "no signature is recorded")
	if err == nil && !checkOnly && key == owner.Key() {
		g.Ensures(has, "the address is unlocked")
		g.Ensures(g.Implies(!had, has && now != nil && now.UnlockedAtInputIndex == index), "an address not yet unlocked is unlocked at the input")
		g.Ensures(g.Implies(had, now == was), "an address unlocked before keeps its record")
	} else {
		g.Ensures(has == had && now == was, "no other address becomes unlocked")
	}
}

//gvc:contract target=(*unlockedAddressesSet).AddUnlockedChain props=C06 stable opaque=iface:(Address).Key
func c_AddUnlockedChain(s *unlockedAddressesSet, a iotago.ChainAddress, index uint16, key string) {
	g.Requires(s != nil && s.UnlockedAddrsByAddrKey != nil && a != nil)
	was, had := s.UnlockedAddrsByAddrKey[key]
	s.AddUnlockedChain(a, index)
	now, has := s.UnlockedAddrsByAddrKey[key]
	if key == a.Key() {
		g.Ensures(has && now != nil && now.UnlockedAtInputIndex == index, "the chain's address is unlocked at the input")
	} else {
		g.Ensures(has == had && now == was, "no other address becomes unlocked")
	}
}

// weightOf: the weight a part of the unlock contributes (0 if it is empty).
func weightOf(addr *iotago.MultiAddress, m *iotago.MultiUnlock, i int) g.Int {
	if _, empty := m.Unlocks[i].(*iotago.EmptyUnlock); empty {
		return g.K(0)
	}
	return g.N(addr.Addresses[i].Weight)
}

func weightSum(addr *iotago.MultiAddress, m *iotago.MultiUnlock, n int) g.Int {
	return g.Sum(0, n, func(i int) g.Int { return weightOf(addr, m, i) })
}

// partOK: a part of a multi unlock is empty or unlocks the address at its position.
func partOK(s *unlockedAddressesSet, addr *iotago.MultiAddress, m *iotago.MultiUnlock, msg []byte, index uint16, i int) bool {
	switch m.Unlocks[i].(type) {
	case *iotago.EmptyUnlock:
		return true
	case *iotago.MultiUnlock:
		return false
	}
	return unlockAddress(addr.Addresses[i].Address, m.Unlocks[i], index, s, msg, true) == nil
}

//gvc:contract target=(*unlockedAddressesSet).MultiUnlock props=C06,C21 stable opaque=vm.unlockAddress,(*MultiAddress).Key
func c_MultiUnlock(s *unlockedAddressesSet, addr *iotago.MultiAddress, m *iotago.MultiUnlock, msg []byte, index uint16, key string) {
	g.Requires(setOK(s) && addr != nil && m != nil)
	g.Requires(g.Forall(0, len(addr.Addresses), func(i int) bool { return addr.Addresses[i] != nil && addr.Addresses[i].Address != nil }))
	g.Requires(g.Forall(0, len(m.Unlocks), func(i int) bool { return m.Unlocks[i] != nil }))
	g.Requires(len(m.Unlocks) <= 257)
	was, had := s.UnlockedAddrsByAddrKey[key]
	valid := len(addr.Addresses) == len(m.Unlocks) && g.Forall(0, len(m.Unlocks), func(i int) bool { return partOK(g.Scratch(s), addr, m, msg, index, i) }) &&
		g.N(addr.Threshold).Le(weightSum(addr, m, len(m.Unlocks)))
	err := s.MultiUnlock(addr, m, msg, index)
	g.Ensures((err == nil) == valid, "a multi address is unlocked iff every part that is not empty unlocks the address at its position and their weights reach the threshold")
	now, has := s.UnlockedAddrsByAddrKey[key]
	if valid && key == addr.Key() {
		g.Ensures(has && now != nil && now.UnlockedAtInputIndex == index, "the address is recorded as unlocked at the input")
	} else {
		g.Ensures(has == had && now == was, "no other address is unlocked")
	}
}

//gvc:invariant for=c_MultiUnlock
func inv_MultiUnlock1(s *unlockedAddressesSet, addr *iotago.MultiAddress, m *iotago.MultiUnlock, msg []byte, index uint16, i int) bool {
	return g.Forall(0, i, func(k int) bool { return partOK(s, addr, m, msg, index, k) })
}

//gvc:invariant for=c_MultiUnlock
func inv_MultiUnlock2(addr *iotago.MultiAddress, m *iotago.MultiUnlock, cumulativeUnlockedWeight uint16, i int) bool {
	return g.N(cumulativeUnlockedWeight).Eq(weightSum(addr, m, i)) && int(cumulativeUnlockedWeight) <= 255*i
}

func isChainAddr(a iotago.Address) bool {
	switch a.(type) {
	case *iotago.AccountAddress, *iotago.AnchorAddress, *iotago.NFTAddress:
		return true
	}
	return false
}

// chainUnlockFor: the unlock is the kind of unlock meant for addresses of that kind of chain.
func chainUnlockFor(a iotago.Address, u iotago.Unlock) (uint16, bool) {
	switch x := u.(type) {
	case *iotago.AccountUnlock:
		_, is := a.(*iotago.AccountAddress)
		return x.Reference, is
	case *iotago.AnchorUnlock:
		_, is := a.(*iotago.AnchorAddress)
		return x.Reference, is
	case *iotago.NFTUnlock:
		_, is := a.(*iotago.NFTAddress)
		return x.Reference, is
	}
	return 0, false
}

// unlocks: what the rules say about unlocking an address with an unlock, given what was unlocked before.
func unlocks(s *unlockedAddressesSet, a iotago.Address, u iotago.Unlock, msg []byte, index uint16) bool {
	entry, known := s.UnlockedAddrsByAddrKey[a.Key()]
	switch owner := a.(type) {
	case *iotago.AccountAddress, *iotago.AnchorAddress, *iotago.NFTAddress:
		ref, fits := chainUnlockFor(a, u)
		return fits && known && entry.UnlockedAtInputIndex == ref
	case *iotago.MultiAddress:
		switch x := u.(type) {
		case *iotago.ReferenceUnlock:
			return known && entry.UnlockedAtInputIndex == x.Reference
		case *iotago.MultiUnlock:
			return !known && s.MultiUnlock(owner, x, msg, index) == nil
		}
		return false
	}
	direct, is := a.(iotago.DirectUnlockableAddress)
	if !is {
		return false
	}
	switch x := u.(type) {
	case *iotago.ReferenceUnlock:
		sig, signed := s.SignatureUnlockedAddrsByIndex[x.Reference]
		return signed && sig.UnlockedAtInputIndex == x.Reference && sig.Signature.MatchesAddress(direct)
	case *iotago.SignatureUnlock:
		return !known && direct.Unlock(msg, x.Signature) == nil
	}
	return false
}

//gvc:contract target=unlockAddress props=C06 stable opaque=iface:(Address).Key,(*MultiAddress).Key,iface:(Signature).MatchesAddress,iface:(DirectUnlockableAddress).Unlock,(*vm.unlockedAddressesSet).MultiUnlock
func c_unlockAddress(s *unlockedAddressesSet, a iotago.Address, u iotago.Unlock, msg []byte, index uint16, checkOnly bool) {
	g.Requires(setOK(s) && a != nil && u != nil)
	_, restricted := a.(*iotago.RestrictedAddress)
	_, reference := a.(*iotago.MultiAddressReference)
	g.Requires(!restricted && !reference)
	valid := unlocks(g.Scratch(s), a, u, msg, index)
	err := unlockAddress(a, u, index, s, msg, checkOnly)
	g.Ensures((err == nil) == valid, "an address is unlocked iff it is signed for, or refers to an earlier input that unlocked it, with an unlock of its kind")
}

//gvc:contract target=addressToUnlock props=C06,C09 opaque=iface:(OwnerTransitionIndependentOutput).Owner,iface:(OwnerTransitionDependentOutput).Owner,iface:(ChainOutput).ChainID,iface:(ChainID).Empty,iface:(UTXOIDChainID).FromOutputID,(*UTXOInput).OutputID
func c_addressToUnlock(t *iotago.Transaction, in iotago.Output, index uint16, outs iotago.ChainOutputSet) {
	g.Requires(t != nil && t.TransactionEssence != nil && in != nil && int(index) < len(t.TransactionEssence.Inputs))
	u, isU := t.TransactionEssence.Inputs[index].(*iotago.UTXOInput)
	g.Requires(isU && u != nil)
	dep, isDep := in.(iotago.OwnerTransitionDependentOutput)
	g.Requires(!isDep || dep.ChainID() != nil)
	a, err := addressToUnlock(t, in, index, outs)
	if !isDep {
		g.Ensures(err == nil && g.SameIface(a, in.(iotago.OwnerTransitionIndependentOutput).Owner()), "an output is unlocked by its owner")
	} else {
		id := chainOf(dep, u.OutputID())
		next := outs[id]
		nextDep, isNext := next.(iotago.OwnerTransitionDependentOutput)
		if next == nil {
			b, e := dep.Owner(nil)
			g.Ensures(err != nil || e == nil && g.SameIface(a, b), "an anchor without a successor is unlocked by the owner for that case")
		} else if !isNext {
			g.Ensures(err != nil, "an anchor is followed by an anchor")
		} else {
			b, e := dep.Owner(nextDep)
			g.Ensures(err != nil || e == nil && g.SameIface(a, b), "an anchor is unlocked by the owner which its successor demands")
		}
	}
}

//gvc:contract target=unlockOutput props=C06 stable opaque=vm.addressToUnlock,vm.checkExpiration,vm.unlockAddress
func c_unlockOutput(t *iotago.Transaction, c VMCommitmentInput, in iotago.Output, u iotago.Unlock, index uint16, s *unlockedAddressesSet, outs iotago.ChainOutputSet, msg []byte) {
	g.Requires(t != nil && t.API != nil && in != nil && u != nil && s != nil)
	owner, e1 := addressToUnlock(t, in, index, outs)
	now, e2 := checkExpiration(in, c, t.API.ProtocolParameters())
	g.Requires(e1 != nil || owner != nil)
	before := g.Scratch(s)
	err := unlockOutput(t, c, in, u, index, s, outs, msg)
	if e1 != nil || e2 != nil {
		g.Ensures(err != nil, "an output whose owner is not determined is not unlocked")
	} else {
		a := owner
		if now != nil {
			a = now
		}
		g.Ensures((err == nil) == (unlockAddress(underlying(a), u, index, before, msg, false) == nil), "an output is unlocked iff the address it belongs to at that time is")
	}
}

//gvc:contract target=ValidateUnlocks props=C06 stable opaque=(*Transaction).Inputs,(*Transaction).ID,(*Transaction).SigningMessage,(Outputs[T]).ChainOutputSet,(*UTXOInput).OutputID,vm.unlockOutput@0+1+2+3+4,iface:(ChainOutput).ChainID,iface:(ChainID).Empty,iface:(ChainID).Addressable,iface:(ChainID).ToAddress,iface:(UTXOIDChainID).FromOutputID,(*vm.unlockedAddressesSet).AddUnlockedChain
func c_ValidateUnlocks(t *iotago.SignedTransaction, r ResolvedInputs) {
	g.Requires(t != nil && t.Transaction != nil && t.Transaction.TransactionEssence != nil)
	in := t.Transaction.Inputs()
	g.Requires(len(in) == len(t.Unlocks) && len(in) <= 65535 && g.Forall(0, len(in), func(i int) bool { return in[i] != nil && r.InputSet[in[i].OutputID()] != nil }))
	_, err := ValidateUnlocks(t, r)
	all := g.Forall(0, len(in), func(i int) bool { return inputUnlocked(t, r, in[i], i) })
	if err == nil {
		g.Ensures(all, "valid unlocks unlock every input with the unlock at its position")
	}
}

// inputUnlocked: the outcome of unlocking input i.
func inputUnlocked(t *iotago.SignedTransaction, r ResolvedInputs, in *iotago.UTXOInput, i int) bool {
	return unlockOutput(t.Transaction, r.CommitmentInput, r.InputSet[in.OutputID()], t.Unlocks[i], uint16(i), nil, nil, nil) == nil
}

//gvc:invariant for=c_ValidateUnlocks
func inv_ValidateUnlocks1(inputs iotago.Outputs[iotago.Output], utxoInputs []*iotago.UTXOInput, resolvedInputs ResolvedInputs, i int) bool {
	return len(inputs) == i && g.Forall(0, i, func(k int) bool { return g.SameIface(inputs[k], resolvedInputs.InputSet[utxoInputs[k].OutputID()]) })
}

//gvc:invariant for=c_ValidateUnlocks
func inv_ValidateUnlocks2(inputs iotago.Outputs[iotago.Output], utxoInputs []*iotago.UTXOInput, resolvedInputs ResolvedInputs, signedTransaction *iotago.SignedTransaction, i int) bool {
	return g.Forall(0, i, func(k int) bool { return inputUnlocked(signedTransaction, resolvedInputs, utxoInputs[k], k) })
}

//gvc:contract target=ExecFuncSenderUnlocked props=C06 stable opaque=iface:(Output).FeatureSet,iface:(Address).Key
func c_ExecFuncSenderUnlocked(p *Params) {
	g.Requires(p != nil && p.WorkingSet != nil && p.WorkingSet.Tx != nil && p.WorkingSet.Tx.TransactionEssence != nil)
	outs := p.WorkingSet.Tx.Outputs
	g.Requires(g.Forall(0, len(outs), func(i int) bool {
		return outs[i] != nil && (outs[i].FeatureSet().SenderFeature() == nil || outs[i].FeatureSet().SenderFeature().Address != nil && underlying(outs[i].FeatureSet().SenderFeature().Address) != nil)
	}))
	err := ExecFuncSenderUnlocked()(nil, p)
	g.Ensures((err == nil) == g.Forall(0, len(outs), func(i int) bool { return senderUnlocked(p, outs[i]) }), "a transaction may name senders in its outputs iff their addresses are unlocked")
}

func senderUnlocked(p *Params, o iotago.Output) bool {
	f := o.FeatureSet().SenderFeature()
	if f == nil {
		return true
	}
	_, is := p.WorkingSet.UnlockedAddrs[underlying(f.Address).Key()]
	return is
}

//gvc:invariant for=c_ExecFuncSenderUnlocked
func inv_SenderUnlocked(vmParams *Params, i int) bool {
	return g.Forall(0, i, func(k int) bool { return senderUnlocked(vmParams, vmParams.WorkingSet.Tx.Outputs[k]) })
}

func isImplicit(o iotago.Output) bool {
	a := o.UnlockConditionSet().Address()
	return o.Type() == iotago.OutputBasic && a != nil && a.Address.Type() == iotago.AddressImplicitAccountCreation
}

//gvc:contract target=ExecFuncAtMostOneImplicitAccountCreationAddress props=C06,C08 stable opaque=iface:(Output).UnlockConditionSet,iface:(Output).Type,iface:(Address).Type
func c_ExecFuncAtMostOneImplicit(p *Params) {
	g.Requires(p != nil && p.WorkingSet != nil)
	in := p.WorkingSet.UTXOInputs
	g.Requires(g.Forall(0, len(in), func(i int) bool {
		return in[i] != nil && (in[i].UnlockConditionSet().Address() == nil || in[i].UnlockConditionSet().Address().Address != nil)
	}))
	err := ExecFuncAtMostOneImplicitAccountCreationAddress()(nil, p)
	n := g.Sum(0, len(in), func(i int) g.Int { return g.If(isImplicit(in[i]), g.K(1), g.K(0)) })
	g.Ensures((err == nil) == n.Le(g.K(1)), "a transaction consumes at most one output that creates an account implicitly")
}

//gvc:invariant for=c_ExecFuncAtMostOneImplicit
func inv_AtMostOneImplicit(vmParams *Params, transactionHasImplicitAccountCreationAddress bool, i int) bool {
	return g.If(transactionHasImplicitAccountCreationAddress, g.K(1), g.K(0)).Eq(g.Sum(0, i, func(k int) g.Int { return g.If(isImplicit(vmParams.WorkingSet.UTXOInputs[k]), g.K(1), g.K(0)) }))
}
