package iotago

import (
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

func inputsOK(l TxEssenceInputs) bool {
	return g.Forall(0, len(l), func(i int) bool {
		if l[i] == nil {
			return false
		}
		u, is := l[i].(*UTXOInput)
		return is && u != nil
	})
}

func asInput(in txEssenceInput) Input { return in }

func sameUTXO(a, b txEssenceInput) bool {
	return a.(*UTXOInput).OutputID() == b.(*UTXOInput).OutputID()
}

//gvc:contract target=InputsSyntacticalUnique props=C12 opaque=(*UTXOInput).OutputID
func c_InputsUnique(l TxEssenceInputs) {
	g.Requires(inputsOK(l))
	err := SliceValidatorMapper(l, asInput, InputsSyntacticalUnique())
	g.Ensures((err == nil) == g.Forall(0, len(l), func(i int) bool { return g.Forall(0, i, func(k int) bool { return !sameUTXO(l[i], l[k]) }) }), "inputs are accepted iff no output is consumed twice")
}

//gvc:invariant for=c_InputsUnique
func inv_InputsUnique(l TxEssenceInputs, utxoSet map[string]int, i int) bool {
	return g.Forall(0, i, func(k int) bool {
		id := l[k].(*UTXOInput).OutputID()
		_, has := utxoSet[string(id[:])]
		return has
	})
}

//gvc:invariant for=c_InputsUnique
func inv_InputsUnique2(l TxEssenceInputs, utxoSet map[string]int, i int) bool {
	return g.ForallMap(utxoSet, func(id string, _ int) bool {
		return g.Exists(0, i, func(k int) bool {
			o := l[k].(*UTXOInput).OutputID()
			return string(o[:]) == id
		})
	})
}

//gvc:invariant for=c_InputsUnique
func inv_InputsUnique3(l TxEssenceInputs, i int) bool {
	return g.Forall(0, i, func(k int) bool { return g.Forall(0, k, func(j int) bool { return !sameUTXO(l[k], l[j]) }) })
}

//gvc:contract target=InputsSyntacticalIndicesWithinBounds props=C12
func c_InputsWithinBounds(index int, u *UTXOInput) {
	g.Requires(u != nil)
	err := InputsSyntacticalIndicesWithinBounds()(index, u)
	g.Ensures((err == nil) == (u.TransactionOutputIndex <= 127), "an input is accepted iff it refers to one of the 128 possible outputs of a transaction")
}

//gvc:contract target=ContextInputsRewardInputMaxIndex props=C12,C10
func c_RewardInputMaxIndex(n uint16, index int, in ContextInput) {
	g.Requires(in != nil)
	err := ContextInputsRewardInputMaxIndex(n)(index, in)
	r, is := in.(*RewardInput)
	if is {
		g.Ensures((err == nil) == (r.Index < n), "a reward input is accepted iff it refers to an input of the transaction")
	} else {
		g.Ensures(err == nil, "only reward inputs are checked")
	}
}

func isCommitment(in ContextInput) bool {
	_, is := in.(*CommitmentInput)
	return is
}

func ctxOK(l []ContextInput) bool {
	return g.Forall(0, len(l), func(i int) bool { return l[i] != nil })
}

//gvc:contract target=ContextInputsCommitmentInputRequirement props=C12
func c_CommitmentInputRequirement(l []ContextInput) {
	g.Requires(ctxOK(l))
	err := SliceValidator(l, ContextInputsCommitmentInputRequirement())
	g.Ensures((err == nil) == (len(l) == 0 || isCommitment(l[0])), "context inputs are accepted iff they start with a commitment input")
}

//gvc:invariant for=c_CommitmentInputRequirement
func inv_CommitmentInputRequirement(l []ContextInput, seenCommitmentInput bool, i int) bool {
	return i >= 0 && seenCommitmentInput == (i > 0) && (i == 0 || isCommitment(l[0]))
}

//gvc:contract target=allotmentMaxManaValidator props=C04,C12
func c_AllotmentMaxMana(max Mana, l Allotments) {
	g.Requires(g.Forall(0, len(l), func(i int) bool { return l[i] != nil }))
	err := SliceValidator(l, allotmentMaxManaValidator(max))
	g.Ensures((err == nil) == g.Sum(0, len(l), func(i int) g.Int { return g.N(l[i].Mana) }).Le(g.N(max)), "allotments are accepted iff their sum is at most the maximum")
}

//gvc:invariant for=c_AllotmentMaxMana
func inv_AllotmentMaxMana(l Allotments, sum Mana, max Mana, i int) bool {
	return g.N(sum).Eq(g.Sum(0, i, func(k int) g.Int { return g.N(l[k].Mana) })) && sum <= max
}

//gvc:contract target=LexicalOrderAndUniquenessValidator props=C12,C04
func c_AllotmentOrder(l Allotments) {
	g.Requires(g.Forall(0, len(l), func(i int) bool { return l[i] != nil }))
	err := SliceValidator(l, LexicalOrderAndUniquenessValidator[*Allotment]())
	g.Ensures((err == nil) == g.Forall(1, len(l), func(i int) bool { return g.StrLess(string(l[i-1].AccountID[:]), string(l[i].AccountID[:])) }), "allotments are accepted iff their accounts are strictly ascending")
}

//gvc:invariant for=c_AllotmentOrder
func inv_AllotmentOrder(l Allotments, prev **Allotment, i int) bool {
	return g.Forall(1, i, func(k int) bool { return g.StrLess(string(l[k-1].AccountID[:]), string(l[k].AccountID[:])) }) && (i == 0) == (prev == nil) && (i == 0 || *prev == l[i-1])
}

//gvc:contract target=LexicalOrderAndUniquenessValidator props=C12 opaque=iface:Compare(ContextInput)
func c_ContextInputOrder(l []ContextInput) {
	g.Requires(ctxOK(l))
	g.Requires(g.Forall(1, len(l), func(i int) bool {
		return l[i-1].Compare(l[i]) == -1 || l[i-1].Compare(l[i]) == 0 || l[i-1].Compare(l[i]) == 1
	}))
	err := SliceValidator(l, LexicalOrderAndUniquenessValidator[ContextInput]())
	g.Ensures((err == nil) == g.Forall(1, len(l), func(i int) bool { return l[i-1].Compare(l[i]) < 0 }), "context inputs are accepted iff they are strictly ascending")
}

//gvc:invariant for=c_ContextInputOrder
func inv_ContextInputOrder(l []ContextInput, prev *ContextInput, i int) bool {
	return g.Forall(1, i, func(k int) bool { return l[k-1].Compare(l[k]) < 0 }) && (i == 0) == (prev == nil) && (i == 0 || g.SameIface(*prev, l[i-1]))
}

//gvc:contract target=(*CommitmentInput).Compare props=C12
func c_ContextInput_Compare(a ContextInput, b ContextInput) {
	g.Requires(a != nil && b != nil)
	r := a.Compare(b)
	if a.Type() < b.Type() {
		g.Ensures(r < 0, "context inputs are ordered by kind")
	} else if a.Type() > b.Type() {
		g.Ensures(r > 0, "context inputs are ordered by kind")
	} else {
		switch x := a.(type) {
		case *CommitmentInput:
			g.Ensures(r == 0, "commitment inputs are all the same")
		case *BlockIssuanceCreditInput:
			y := b.(*BlockIssuanceCreditInput)
			g.Ensures((r < 0) == g.StrLess(string(x.AccountID[:]), string(y.AccountID[:])), "block issuance credit inputs are ordered by account")
			g.Ensures((r == 0) == (x.AccountID == y.AccountID), "block issuance credit inputs are equal iff they name the same account")
		case *RewardInput:
			y := b.(*RewardInput)
			g.Ensures((r < 0) == (x.Index < y.Index) && (r == 0) == (x.Index == y.Index), "reward inputs are ordered by index")
		}
	}
	g.Ensures(-1 <= r && r <= 1, "the result is -1, 0 or 1")
}

func noDoubleInput(l []txEssenceInput, n int) bool {
	return g.Forall(0, n, func(i int) bool { return g.Forall(0, i, func(k int) bool { return !sameUTXO(l[i], l[k]) }) })
}

func inputsInRange(l []txEssenceInput) bool {
	return g.Forall(0, len(l), func(i int) bool { return l[i].(*UTXOInput).TransactionOutputIndex <= RefUTXOIndexMax })
}

func ctxAscending(l []txEssenceContextInput, n int) bool {
	return g.Forall(1, n, func(i int) bool { return l[i-1].Compare(l[i]) < 0 })
}

func rewardOK(in ContextInput, n int) bool {
	r, is := in.(*RewardInput)
	return !is || int(r.Index) < n
}

func essenceContextOK(l []txEssenceContextInput, n int) bool {
	return ctxAscending(l, len(l)) && (len(l) == 0 || isCommitment(l[0])) && g.Forall(0, len(l), func(i int) bool { return rewardOK(l[i], n) })
}

func allotAscending(l Allotments, n int) bool {
	return g.Forall(1, n, func(i int) bool { return l[i-1].Compare(l[i]) < 0 })
}

func allotSum(l Allotments, n int) g.Int {
	return g.Sum(0, n, func(i int) g.Int { return g.N(l[i].Mana) })
}

// maxManaOf: the largest amount of mana, 2^bits - 1.
func maxManaOf(api API) g.Int {
	return g.Pow2(api.ProtocolParameters().ManaParameters().BitsCount).Sub(g.K(1))
}

//gvc:contract target=(*TransactionEssence).syntacticallyValidateEssence props=C12,C04 opaque=BitMaskNonTrailingZeroBytesValidatorFunc,iface:(ProtocolParameters).NetworkID,iface:(ProtocolParameters).NetworkName,(*UTXOInput).OutputID,iface:Compare(ContextInput),(*Allotment).Compare
func c_syntacticallyValidateEssence(u *TransactionEssence, api API) {
	g.Requires(u != nil && api != nil && api.ProtocolParameters() != nil && api.ProtocolParameters().ManaParameters() != nil)
	in, ctx, al := u.Inputs, u.ContextInputs, u.Allotments
	g.Requires(len(in) <= 65535 && inputsOK(in))
	g.Requires(g.Forall(0, len(ctx), func(i int) bool { return ctx[i] != nil }))
	g.Requires(g.Forall(1, len(ctx), func(i int) bool { return -1 <= ctx[i-1].Compare(ctx[i]) && ctx[i-1].Compare(ctx[i]) <= 1 }))
	g.Requires(g.Forall(0, len(al), func(i int) bool { return al[i] != nil }))
	g.Requires(g.Forall(1, len(al), func(i int) bool { return -1 <= al[i-1].Compare(al[i]) && al[i-1].Compare(al[i]) <= 1 }))
	g.Requires(api.ProtocolParameters().ManaParameters().BitsCount <= 63)
	err := u.syntacticallyValidateEssence(api)
	if err == nil {
		g.Ensures(BitMaskNonTrailingZeroBytesValidatorFunc(u.Capabilities) == nil, "accepted: the capabilities have no trailing zero bytes")
		g.Ensures(u.NetworkID == api.ProtocolParameters().NetworkID(), "accepted: the transaction is for this network")
		g.Ensures(inputsInRange(in), "accepted: output indices are in range")
		g.Ensures(essenceContextOK(ctx, len(in)), "accepted: context inputs are ascending, start with a commitment and refer to inputs of the transaction")
		g.Ensures(allotAscending(al, len(al)), "accepted: allotments are ascending")
		g.Ensures(allotSum(al, len(al)).Le(maxManaOf(api)), "accepted: the allotments are at most the maximum amount of mana")
	}
}

//gvc:contract target=(*TransactionEssence).syntacticallyValidateEssence props=C12,C04 opaque=BitMaskNonTrailingZeroBytesValidatorFunc,iface:(ProtocolParameters).NetworkID,iface:(ProtocolParameters).NetworkName,(*UTXOInput).OutputID,iface:Compare(ContextInput),(*Allotment).Compare
func c_syntacticallyValidateEssence_inputs(u *TransactionEssence, api API) {
	g.Requires(u != nil && api != nil && api.ProtocolParameters() != nil && api.ProtocolParameters().ManaParameters() != nil)
	in := u.Inputs
	g.Requires(len(in) <= 65535 && inputsOK(in))
	if u.syntacticallyValidateEssence(api) == nil {
		g.Ensures(noDoubleInput(in, len(in)), "accepted: no output is consumed twice")
	}
}

//gvc:invariant for=c_syntacticallyValidateEssence_inputs
func inv_EssInputs(slice []txEssenceInput, utxoSet map[string]int, i int) bool {
	return g.Forall(0, i, func(k int) bool {
		id := slice[k].(*UTXOInput).OutputID()
		_, has := utxoSet[string(id[:])]
		return has
	})
}

//gvc:invariant for=c_syntacticallyValidateEssence_inputs
func inv_EssInputs2(slice []txEssenceInput, utxoSet map[string]int, i int) bool {
	return g.ForallMap(utxoSet, func(id string, _ int) bool {
		return g.Exists(0, i, func(k int) bool {
			o := slice[k].(*UTXOInput).OutputID()
			return string(o[:]) == id
		})
	})
}

//gvc:invariant for=c_syntacticallyValidateEssence_inputs
func inv_EssInputs3(slice []txEssenceInput, i int) bool { return noDoubleInput(slice, i) }

//gvc:invariant for=c_syntacticallyValidateEssence
func inv_EssInputs4(slice []txEssenceInput, i int) bool {
	return g.Forall(0, i, func(k int) bool { return slice[k].(*UTXOInput).TransactionOutputIndex <= RefUTXOIndexMax })
}

//gvc:invariant for=c_syntacticallyValidateEssence
func inv_EssCtx(slice []txEssenceContextInput, seenCommitmentInput bool, i int) bool {
	return i >= 0 && seenCommitmentInput == (i > 0) && (i == 0 || isCommitment(slice[0]))
}

//gvc:invariant for=c_syntacticallyValidateEssence
func inv_EssCtx2(slice []txEssenceContextInput, prev *ContextInput, i int) bool {
	return ctxAscending(slice, i) && (i == 0) == (prev == nil) && (i == 0 || g.SameIface(*prev, slice[i-1]))
}

//gvc:invariant for=c_syntacticallyValidateEssence
func inv_EssCtx3(slice []txEssenceContextInput, u *TransactionEssence, i int) bool {
	return g.Forall(0, i, func(k int) bool { return rewardOK(slice[k], len(u.Inputs)) })
}

//gvc:invariant for=c_syntacticallyValidateEssence
func inv_EssAllot(slice []*Allotment, sum Mana, i int) bool {
	return g.N(sum).Eq(allotSum(slice, i))
}

//gvc:invariant for=c_syntacticallyValidateEssence
func inv_EssAllot1(sum Mana, maxManaValue Mana) bool { return sum <= maxManaValue }

//gvc:invariant for=c_syntacticallyValidateEssence
func inv_EssAllot2(slice []*Allotment, prev **Allotment, i int) bool {
	return allotAscending(slice, i) && (i == 0) == (prev == nil) && (i == 0 || *prev == slice[i-1])
}

//gvc:contract target=(*Transaction).SyntacticallyValidate props=C12,C11,C08,C09,C10,C15,C04,C05 opaque=(*TransactionEssence).syntacticallyValidateEssence,(*Transaction).CommitmentInput,iface:(Output).UnlockConditionSet,iface:(Output).FeatureSet,iface:(Output).BaseTokenAmount,iface:(Output).StoredMana,iface:(ChainOutput).ChainID,(*StorageScoreStructure).CoversMinDeposit,(*StorageScoreStructure).MinStorageDepositForReturnOutput,(MetadataFeature).mapSize,(StateMetadataFeature).mapSize,OutputsSyntacticalUnlockConditionLexicalOrderAndUniqueness$1,OutputsSyntacticalFeaturesLexicalOrderAndUniqueness$1,OutputsSyntacticalExpirationAndTimelock$1,OutputsSyntacticalNativeTokens$1,OutputsSyntacticalFoundry$1,OutputsSyntacticalAccount$1,OutputsSyntacticalAnchor$1,OutputsSyntacticalNFT$1,OutputsSyntacticalDelegation$1,OutputsSyntacticalAddressRestrictions$1,OutputsSyntacticalImplicitAccountCreationAddress$1
func c_Transaction_SyntacticallyValidate(t *Transaction, api API) {
	g.Requires(t != nil && t.TransactionEssence != nil && api != nil && api.ProtocolParameters() != nil && api.ProtocolParameters().ManaParameters() != nil && api.StorageScoreStructure() != nil)
	g.Requires(outsNonNil(t.Outputs) && api.ProtocolParameters().ManaParameters().BitsCount <= 63)
	err := t.SyntacticallyValidate(api)
	if err == nil {
		o := t.Outputs
		g.Ensures(t.TransactionEssence.syntacticallyValidateEssence(api) == nil, "accepted: the essence is valid")
		g.Ensures(totalOf(o, len(o)).Le(g.N(api.ProtocolParameters().TokenSupply())), "accepted: the outputs hold at most the token supply")
		g.Ensures(g.Forall(0, len(o), func(k int) bool { return depositOK(api.StorageScoreStructure(), o[k]) }), "accepted: every output covers its storage deposit")
		g.Ensures(storedOf(o, len(o)).Le(maxManaOf(api)), "accepted: the stored mana is at most the maximum amount of mana")
		g.Ensures(g.Forall(0, len(o), func(k int) bool { return metadataOK(o[k]) }), "accepted: metadata has at most the maximum size")
		g.Ensures(t.CommitmentInput() != nil || g.Forall(0, len(o), func(k int) bool { return !needsCommitment(o[k]) }), "accepted: outputs which need a commitment input have one")
		g.Ensures(g.Forall(0, len(o), func(k int) bool { return OutputsSyntacticalUnlockConditionLexicalOrderAndUniqueness()(k, o[k]) == nil }), "accepted: every output passes the check OutputsSyntacticalUnlockConditionLexicalOrderAndUniqueness")
		g.Ensures(g.Forall(0, len(o), func(k int) bool { return OutputsSyntacticalFeaturesLexicalOrderAndUniqueness()(k, o[k]) == nil }), "accepted: every output passes the check OutputsSyntacticalFeaturesLexicalOrderAndUniqueness")
		g.Ensures(g.Forall(0, len(o), func(k int) bool { return OutputsSyntacticalExpirationAndTimelock()(k, o[k]) == nil }), "accepted: every output passes the check OutputsSyntacticalExpirationAndTimelock")
		g.Ensures(g.Forall(0, len(o), func(k int) bool { return OutputsSyntacticalNativeTokens()(k, o[k]) == nil }), "accepted: every output passes the check OutputsSyntacticalNativeTokens")
		g.Ensures(g.Forall(0, len(o), func(k int) bool { return OutputsSyntacticalFoundry()(k, o[k]) == nil }), "accepted: every output passes the check OutputsSyntacticalFoundry")
		g.Ensures(g.Forall(0, len(o), func(k int) bool { return OutputsSyntacticalAccount()(k, o[k]) == nil }), "accepted: every output passes the check OutputsSyntacticalAccount")
		g.Ensures(g.Forall(0, len(o), func(k int) bool { return OutputsSyntacticalAnchor()(k, o[k]) == nil }), "accepted: every output passes the check OutputsSyntacticalAnchor")
		g.Ensures(g.Forall(0, len(o), func(k int) bool { return OutputsSyntacticalNFT()(k, o[k]) == nil }), "accepted: every output passes the check OutputsSyntacticalNFT")
		g.Ensures(g.Forall(0, len(o), func(k int) bool { return OutputsSyntacticalDelegation()(k, o[k]) == nil }), "accepted: every output passes the check OutputsSyntacticalDelegation")
		g.Ensures(g.Forall(0, len(o), func(k int) bool { return OutputsSyntacticalAddressRestrictions()(k, o[k]) == nil }), "accepted: every output passes the check OutputsSyntacticalAddressRestrictions")
		g.Ensures(g.Forall(0, len(o), func(k int) bool { return OutputsSyntacticalImplicitAccountCreationAddress()(k, o[k]) == nil }), "accepted: every output passes the check OutputsSyntacticalImplicitAccountCreationAddress")
	}
}

//gvc:contract target=(*Transaction).SyntacticallyValidate props=C12,C11,C08,C09,C10,C15,C04,C05 opaque=(*TransactionEssence).syntacticallyValidateEssence,(*Transaction).CommitmentInput,iface:(Output).UnlockConditionSet,iface:(Output).FeatureSet,iface:(Output).BaseTokenAmount,iface:(Output).StoredMana,iface:(ChainOutput).ChainID,(*StorageScoreStructure).CoversMinDeposit,(*StorageScoreStructure).MinStorageDepositForReturnOutput,(MetadataFeature).mapSize,(StateMetadataFeature).mapSize,OutputsSyntacticalUnlockConditionLexicalOrderAndUniqueness$1,OutputsSyntacticalFeaturesLexicalOrderAndUniqueness$1,OutputsSyntacticalExpirationAndTimelock$1,OutputsSyntacticalNativeTokens$1,OutputsSyntacticalFoundry$1,OutputsSyntacticalAccount$1,OutputsSyntacticalAnchor$1,OutputsSyntacticalNFT$1,OutputsSyntacticalDelegation$1,OutputsSyntacticalAddressRestrictions$1,OutputsSyntacticalImplicitAccountCreationAddress$1
func c_Transaction_SyntacticallyValidate_chains(t *Transaction, api API) {
	g.Requires(t != nil && t.TransactionEssence != nil && api != nil && api.ProtocolParameters() != nil && api.ProtocolParameters().ManaParameters() != nil && api.StorageScoreStructure() != nil)
	g.Requires(outsNonNil(t.Outputs) && api.ProtocolParameters().ManaParameters().BitsCount <= 63)
	err := t.SyntacticallyValidate(api)
	if err == nil {
		o := t.Outputs
		g.Ensures(g.Forall(0, len(o), func(k int) bool { return g.Forall(0, k, func(j int) bool { return !sameChain(o[j], o[k]) }) }), "accepted: no chain occurs twice")
	}
}

func totalOf(o TxEssenceOutputs, n int) g.Int {
	return g.Sum(0, n, func(k int) g.Int { return g.N(o[k].BaseTokenAmount()) })
}

func storedOf(o TxEssenceOutputs, n int) g.Int {
	return g.Sum(0, n, func(k int) g.Int { return g.N(o[k].StoredMana()) })
}

func metadataOK(o Output) bool {
	m, s := o.FeatureSet().Metadata(), o.FeatureSet().StateMetadata()
	return (m == nil || m.mapSize() <= MaxMetadataMapSize) && (s == nil || s.mapSize() <= MaxMetadataMapSize)
}

func needsCommitment(o Output) bool {
	_, del := o.(*DelegationOutput)
	return del || o.FeatureSet().Staking() != nil || o.FeatureSet().BlockIssuer() != nil
}

//gvc:invariant for=c_Transaction_SyntacticallyValidate
func inv_Tx1(outputs TxEssenceOutputs, sum BaseToken, protoParams ProtocolParameters, i int) bool {
	return g.N(sum).Eq(totalOf(outputs, i)) && (i == 0 || sum <= protoParams.TokenSupply())
}

//gvc:invariant for=c_Transaction_SyntacticallyValidate
func inv_Tx2(outputs TxEssenceOutputs, api API, i int) bool {
	return g.Forall(0, i, func(k int) bool { return depositOK(api.StorageScoreStructure(), outputs[k]) })
}

//gvc:invariant for=c_Transaction_SyntacticallyValidate
func inv_Tx3(outputs TxEssenceOutputs, sum Mana, i int) bool {
	return g.N(sum).Eq(storedOf(outputs, i))
}

//gvc:invariant for=c_Transaction_SyntacticallyValidate
func inv_Tx3b(sum Mana, maxManaValue Mana) bool { return sum <= maxManaValue }

//gvc:invariant for=c_Transaction_SyntacticallyValidate_chains
func inv_Tx4(outputs TxEssenceOutputs, chainConstrainedOutputs ChainOutputSet, i int) bool {
	return g.Forall(0, i, func(k int) bool {
		c, is := outputs[k].(ChainOutput)
		if !is || c.ChainID().Empty() {
			return true
		}
		_, has := chainConstrainedOutputs[c.ChainID()]
		return has
	})
}

//gvc:invariant for=c_Transaction_SyntacticallyValidate_chains
func inv_Tx5(outputs TxEssenceOutputs, i int) bool {
	return g.Forall(0, i, func(k int) bool {
		return g.Forall(0, k, func(j int) bool { return !sameChain(outputs[j], outputs[k]) })
	})
}

//gvc:invariant for=c_Transaction_SyntacticallyValidate
func inv_Tx6(outputs TxEssenceOutputs, i int) bool {
	return g.Forall(0, i, func(k int) bool { return metadataOK(outputs[k]) })
}

//gvc:invariant for=c_Transaction_SyntacticallyValidate
func inv_Tx7(outputs TxEssenceOutputs, hasCommitmentInput bool, i int) bool {
	return hasCommitmentInput || g.Forall(0, i, func(k int) bool { return !needsCommitment(outputs[k]) })
}

//gvc:invariant for=c_Transaction_SyntacticallyValidate
func inv_Tx_UnlockConditionLexicalOrderAndUniqueness(outputs TxEssenceOutputs, i int) bool {
	return g.Forall(0, i, func(k int) bool {
		return OutputsSyntacticalUnlockConditionLexicalOrderAndUniqueness()(k, outputs[k]) == nil
	})
}

//gvc:invariant for=c_Transaction_SyntacticallyValidate
func inv_Tx_FeaturesLexicalOrderAndUniqueness(outputs TxEssenceOutputs, i int) bool {
	return g.Forall(0, i, func(k int) bool { return OutputsSyntacticalFeaturesLexicalOrderAndUniqueness()(k, outputs[k]) == nil })
}

//gvc:invariant for=c_Transaction_SyntacticallyValidate
func inv_Tx_ExpirationAndTimelock(outputs TxEssenceOutputs, i int) bool {
	return g.Forall(0, i, func(k int) bool { return OutputsSyntacticalExpirationAndTimelock()(k, outputs[k]) == nil })
}

//gvc:invariant for=c_Transaction_SyntacticallyValidate
func inv_Tx_NativeTokens(outputs TxEssenceOutputs, i int) bool {
	return g.Forall(0, i, func(k int) bool { return OutputsSyntacticalNativeTokens()(k, outputs[k]) == nil })
}

//gvc:invariant for=c_Transaction_SyntacticallyValidate
func inv_Tx_Foundry(outputs TxEssenceOutputs, i int) bool {
	return g.Forall(0, i, func(k int) bool { return OutputsSyntacticalFoundry()(k, outputs[k]) == nil })
}

//gvc:invariant for=c_Transaction_SyntacticallyValidate
func inv_Tx_Account(outputs TxEssenceOutputs, i int) bool {
	return g.Forall(0, i, func(k int) bool { return OutputsSyntacticalAccount()(k, outputs[k]) == nil })
}

//gvc:invariant for=c_Transaction_SyntacticallyValidate
func inv_Tx_Anchor(outputs TxEssenceOutputs, i int) bool {
	return g.Forall(0, i, func(k int) bool { return OutputsSyntacticalAnchor()(k, outputs[k]) == nil })
}

//gvc:invariant for=c_Transaction_SyntacticallyValidate
func inv_Tx_NFT(outputs TxEssenceOutputs, i int) bool {
	return g.Forall(0, i, func(k int) bool { return OutputsSyntacticalNFT()(k, outputs[k]) == nil })
}

//gvc:invariant for=c_Transaction_SyntacticallyValidate
func inv_Tx_Delegation(outputs TxEssenceOutputs, i int) bool {
	return g.Forall(0, i, func(k int) bool { return OutputsSyntacticalDelegation()(k, outputs[k]) == nil })
}

//gvc:invariant for=c_Transaction_SyntacticallyValidate
func inv_Tx_AddressRestrictions(outputs TxEssenceOutputs, i int) bool {
	return g.Forall(0, i, func(k int) bool { return OutputsSyntacticalAddressRestrictions()(k, outputs[k]) == nil })
}

//gvc:invariant for=c_Transaction_SyntacticallyValidate
func inv_Tx_ImplicitAccountCreationAddress(outputs TxEssenceOutputs, i int) bool {
	return g.Forall(0, i, func(k int) bool { return OutputsSyntacticalImplicitAccountCreationAddress()(k, outputs[k]) == nil })
}
