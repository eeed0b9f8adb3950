package iotago

import (
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

func outsNonNil(l TxEssenceOutputs) bool {
	return g.Forall(0, len(l), func(i int) bool { return l[i] != nil })
}

// depositOK: the amount of an output covers the storage deposit and what has to be returned from it.
func depositOK(st *StorageScoreStructure, o Output) bool {
	if o.BaseTokenAmount() == 0 {
		return false
	}
	if _, err := st.CoversMinDeposit(o, o.BaseTokenAmount()); err != nil {
		return false
	}
	ret := o.UnlockConditionSet().StorageDepositReturn()
	if ret == nil {
		return true
	}
	min, err := st.MinStorageDepositForReturnOutput(ret.ReturnAddress)
	return err == nil && min <= ret.Amount && ret.Amount <= o.BaseTokenAmount()
}

//gvc:contract target=OutputsSyntacticalDepositAmount props=C11,C12 opaque=iface:(Output).UnlockConditionSet,iface:(Output).BaseTokenAmount,(*StorageScoreStructure).CoversMinDeposit,(*StorageScoreStructure).MinStorageDepositForReturnOutput
func c_OutputsDepositAmount(pp *V3ProtocolParameters, st *StorageScoreStructure, outputs TxEssenceOutputs) {
	g.Requires(pp != nil && st != nil && outsNonNil(outputs))
	err := SyntacticallyValidateOutputs(outputs, OutputsSyntacticalDepositAmount(pp, st))
	total := g.Sum(0, len(outputs), func(k int) g.Int { return g.N(outputs[k].BaseTokenAmount()) })
	g.Ensures((err == nil) == (total.Le(g.N(pp.TokenSupply())) && g.Forall(0, len(outputs), func(k int) bool { return depositOK(st, outputs[k]) })), "outputs are accepted iff each covers its storage deposit, returns enough, and their sum is within the supply")
}

//gvc:invariant for=c_OutputsDepositAmount
func inv_DepositAmount(outputs TxEssenceOutputs, sum BaseToken, pp *V3ProtocolParameters, i int) bool {
	return g.N(sum).Eq(g.Sum(0, i, func(k int) g.Int { return g.N(outputs[k].BaseTokenAmount()) })) && (i == 0 || sum <= pp.TokenSupply())
}

//gvc:invariant for=c_OutputsDepositAmount
func inv_DepositAmount2(outputs TxEssenceOutputs, st *StorageScoreStructure, i int) bool {
	return g.Forall(0, i, func(k int) bool { return depositOK(st, outputs[k]) })
}

//gvc:contract target=(*StorageScoreStructure).CoversMinDeposit props=C11 opaque=iface:(NonEphemeralObject).StorageScore
func c_CoversMinDeposit(st *StorageScoreStructure, o Output, amount BaseToken) {
	g.Requires(st != nil && st.StorageScoreParameters != nil && o != nil)
	min, err := st.CoversMinDeposit(o, amount)
	need := g.N(st.StorageCost()).Mul(g.N(o.StorageScore(st, nil)))
	g.Ensures((err == nil) == need.Le(g.N(amount)), "an amount covers the deposit iff it is at least storage cost times storage score")
	g.Ensures(g.Implies(err == nil, g.N(min).Eq(need)), "the deposit is storage cost times storage score")
}

//gvc:contract target=(*StorageScoreStructure).MinDeposit props=C11 opaque=iface:(NonEphemeralObject).StorageScore
func c_MinDeposit(st *StorageScoreStructure, o Output) {
	g.Requires(st != nil && st.StorageScoreParameters != nil && o != nil)
	min, err := st.MinDeposit(o)
	need := g.N(st.StorageCost()).Mul(g.N(o.StorageScore(st, nil)))
	g.Ensures((err == nil) == need.Lt(g.Pow2(64)), "the deposit is computed iff it fits in 64 bits")
	g.Ensures(g.Implies(err == nil, g.N(min).Eq(need)), "the deposit is storage cost times storage score")
}

//gvc:contract target=OutputsSyntacticalStoredMana props=C04,C12 opaque=iface:(Output).StoredMana
func c_OutputsStoredMana(max Mana, outputs TxEssenceOutputs) {
	g.Requires(outsNonNil(outputs))
	err := SyntacticallyValidateOutputs(outputs, OutputsSyntacticalStoredMana(max))
	total := g.Sum(0, len(outputs), func(k int) g.Int { return g.N(outputs[k].StoredMana()) })
	g.Ensures((err == nil) == total.Le(g.N(max)), "outputs are accepted iff their stored mana sums up to at most the maximum")
}

//gvc:invariant for=c_OutputsStoredMana
func inv_StoredMana(outputs TxEssenceOutputs, sum Mana, max Mana, i int) bool {
	return g.N(sum).Eq(g.Sum(0, i, func(k int) g.Int { return g.N(outputs[k].StoredMana()) })) && sum <= max
}

//gvc:contract target=OutputsSyntacticalNativeTokens props=C05,C12 opaque=iface:(Output).FeatureSet
func c_OutputsNativeTokens(index int, o Output) {
	g.Requires(o != nil)
	f := o.FeatureSet().NativeToken()
	g.Requires(f == nil || f.Amount != nil)
	err := OutputsSyntacticalNativeTokens()(index, o)
	g.Ensures((err == nil) == (f == nil || !g.Big(f.Amount).Eq(g.K(0))), "an output is accepted iff it has no native tokens of amount zero")
}

//gvc:contract target=OutputsSyntacticalExpirationAndTimelock props=C07,C12 opaque=iface:(Output).UnlockConditionSet
func c_OutputsExpirationAndTimelock(index int, o Output) {
	g.Requires(o != nil)
	s := o.UnlockConditionSet()
	err := OutputsSyntacticalExpirationAndTimelock()(index, o)
	g.Ensures((err == nil) == ((s.Expiration() == nil || s.Expiration().Slot != 0) && (s.Timelock() == nil || s.Timelock().Slot != 0)), "an output is accepted iff its expiration and timelock slots are not zero")
}

func accountSyntaxOK(a *AccountOutput) bool {
	if a.AccountID == (AccountID{}) && a.FoundryCounter != 0 {
		return false
	}
	if o, is := a.Owner().(*AccountAddress); is && AccountID(*o) == a.AccountID {
		return false
	}
	f := a.FeatureSet()
	s := f.Staking()
	return s == nil || s.StakedAmount <= a.Amount && f.BlockIssuer() != nil
}

//gvc:contract target=OutputsSyntacticalAccount props=C08,C12 opaque=(*AccountOutput).FeatureSet,(*AccountOutput).Owner
func c_OutputsAccount(index int, o Output) {
	g.Requires(o != nil)
	err := OutputsSyntacticalAccount()(index, o)
	a, is := o.(*AccountOutput)
	if !is {
		g.Ensures(err == nil, "only accounts are checked")
	} else {
		g.Ensures((err == nil) == accountSyntaxOK(a), "an account is accepted iff a new account has foundry counter zero, it does not own itself, and it stakes no more than its amount and only as a block issuer")
	}
}

func anchorSyntaxOK(a *AnchorOutput) bool {
	if a.AnchorID == (AnchorID{}) {
		return a.StateIndex == 0
	}
	if o, is := a.StateController().(*AnchorAddress); is && AnchorID(*o) == a.AnchorID {
		return false
	}
	o, is := a.GovernorAddress().(*AnchorAddress)
	return !is || AnchorID(*o) != a.AnchorID
}

//gvc:contract target=OutputsSyntacticalAnchor props=C09,C12 opaque=(*AnchorOutput).StateController,(*AnchorOutput).GovernorAddress
func c_OutputsAnchor(index int, o Output) {
	g.Requires(o != nil)
	err := OutputsSyntacticalAnchor()(index, o)
	a, is := o.(*AnchorOutput)
	if !is {
		g.Ensures(err == nil, "only anchors are checked")
	} else {
		g.Ensures((err == nil) == anchorSyntaxOK(a), "an anchor is accepted iff a new anchor has state index zero and an existing one does not control itself")
	}
}

func nftSyntaxOK(a *NFTOutput) bool {
	o, is := a.Owner().(*NFTAddress)
	return a.NFTID == (NFTID{}) || !is || NFTID(*o) != a.NFTID
}

//gvc:contract target=OutputsSyntacticalNFT props=C09,C12 opaque=(*NFTOutput).Owner
func c_OutputsNFT(index int, o Output) {
	g.Requires(o != nil)
	err := OutputsSyntacticalNFT()(index, o)
	a, is := o.(*NFTOutput)
	if !is {
		g.Ensures(err == nil, "only NFTs are checked")
	} else {
		g.Ensures((err == nil) == nftSyntaxOK(a), "an NFT is accepted iff it is new or does not own itself")
	}
}

//gvc:contract target=OutputsSyntacticalDelegation props=C10,C12
func c_OutputsDelegation(index int, o Output) {
	g.Requires(o != nil)
	a, is := o.(*DelegationOutput)
	g.Requires(!is || a.ValidatorAddress != nil)
	err := OutputsSyntacticalDelegation()(index, o)
	if !is {
		g.Ensures(err == nil, "only delegations are checked")
	} else {
		g.Ensures((err == nil) == (*a.ValidatorAddress != AccountAddress{}), "a delegation is accepted iff it names a validator")
	}
}

func simpleSchemeOK(s *SimpleTokenScheme) bool {
	return s != nil && s.MintedTokens != nil && s.MeltedTokens != nil && s.MaximumSupply != nil
}

//gvc:contract target=OutputsSyntacticalFoundry props=C05,C12 opaque=(*FoundryOutput).FeatureSet,(*FoundryOutput).FoundryID
func c_OutputsFoundry(index int, o Output) {
	g.Requires(o != nil)
	a, is := o.(*FoundryOutput)
	if !is {
		err := OutputsSyntacticalFoundry()(index, o)
		g.Ensures(err == nil, "only foundries are checked")
	} else {
		s, simple := a.TokenScheme.(*SimpleTokenScheme)
		g.Requires(simple && simpleSchemeOK(s))
		err := OutputsSyntacticalFoundry()(index, o)
		circ := g.Big(s.MintedTokens).Sub(g.Big(s.MeltedTokens))
		ok := g.K(0).Lt(g.Big(s.MaximumSupply)) && g.K(0).Le(circ) && circ.Le(g.Big(s.MaximumSupply))
		nt := a.FeatureSet().NativeToken()
		id, e := a.FoundryID()
		g.Ensures((err == nil) == (ok && (nt == nil || e == nil && id == nt.ID)), "a foundry is accepted iff what circulates is between zero and a positive maximum supply and the tokens it holds are its own")
	}
}

// restricted: the address forbids the output.
func forbids(a Address, o Output) bool {
	r, is := a.(*RestrictedAddress)
	if !is {
		return false
	}
	s := o.UnlockConditionSet()
	return r.CannotReceiveNativeTokens() && o.FeatureSet().NativeToken() != nil ||
		r.CannotReceiveMana() && o.StoredMana() != 0 ||
		r.CannotReceiveOutputsWithTimelockUnlockCondition() && s.Timelock() != nil ||
		r.CannotReceiveOutputsWithExpirationUnlockCondition() && s.Expiration() != nil ||
		r.CannotReceiveOutputsWithStorageDepositReturnUnlockCondition() && s.StorageDepositReturn() != nil ||
		r.CannotReceiveAccountOutputs() && o.Type() == OutputAccount ||
		r.CannotReceiveAnchorOutputs() && o.Type() == OutputAnchor ||
		r.CannotReceiveNFTOutputs() && o.Type() == OutputNFT ||
		r.CannotReceiveDelegationOutputs() && o.Type() == OutputDelegation
}

func implicitForbids(a Address, o Output) bool {
	_, is := a.(*ImplicitAccountCreationAddress)
	if !is {
		return false
	}
	s := o.UnlockConditionSet()
	return s.Timelock() != nil || s.Expiration() != nil || s.StorageDepositReturn() != nil || o.Type() == OutputAccount || o.Type() == OutputAnchor || o.Type() == OutputNFT || o.Type() == OutputDelegation
}

// refuses: the capabilities of the address do not allow the output.
func refuses(a Address, o Output) bool { return forbids(a, o) || implicitForbids(a, o) }

//gvc:contract target=checkAddressRestrictions props=C15,C12 opaque=iface:(Output).UnlockConditionSet,iface:(Output).FeatureSet,iface:(Output).StoredMana,iface:(Output).Type
func c_checkAddressRestrictions(o TxEssenceOutput, a Address) {
	g.Requires(o != nil && a != nil)
	err := checkAddressRestrictions(o, a)
	g.Ensures((err == nil) == !refuses(a, o), "an output is refused iff the address lacks a capability the output needs")
}

func refusedBy(o Output) bool {
	s := o.UnlockConditionSet()
	return s.Address() != nil && checkAddressRestrictions(o, s.Address().Address) != nil ||
		s.StateControllerAddress() != nil && checkAddressRestrictions(o, s.StateControllerAddress().Address) != nil ||
		s.GovernorAddress() != nil && checkAddressRestrictions(o, s.GovernorAddress().Address) != nil ||
		s.Expiration() != nil && checkAddressRestrictions(o, s.Expiration().ReturnAddress) != nil
}

//gvc:contract target=OutputsSyntacticalAddressRestrictions props=C15,C12 opaque=iface:(Output).UnlockConditionSet,checkAddressRestrictions
func c_OutputsAddressRestrictions(index int, o Output) {
	g.Requires(o != nil)
	err := OutputsSyntacticalAddressRestrictions()(index, o)
	g.Ensures((err == nil) == !refusedBy(o), "an output is accepted iff none of the addresses which can own it refuses it")
}

func isImplicit(a Address) bool {
	_, is := a.(*ImplicitAccountCreationAddress)
	return is
}

//gvc:contract target=OutputsSyntacticalImplicitAccountCreationAddress props=C12,C08 opaque=iface:(Output).UnlockConditionSet,(UnlockConditions[T]).MustSet
func c_OutputsImplicit(index int, o Output) {
	g.Requires(o != nil)
	switch x := o.(type) {
	case *BasicOutput, *FoundryOutput:
		g.Ensures(OutputsSyntacticalImplicitAccountCreationAddress()(index, o) == nil, "basic and foundry outputs are not checked")
	case *AnchorOutput:
		s := x.UnlockConditions.MustSet()
		g.Requires(s.StateControllerAddress() != nil && s.GovernorAddress() != nil && s.StateControllerAddress().Address != nil && s.GovernorAddress().Address != nil)
		err := OutputsSyntacticalImplicitAccountCreationAddress()(index, o)
		g.Ensures((err == nil) == !(isImplicit(s.StateControllerAddress().Address) || isImplicit(s.GovernorAddress().Address)), "an anchor is not controlled by implicit account creation addresses")
	default:
		s := o.UnlockConditionSet()
		g.Requires(s.Address() != nil && s.Address().Address != nil)
		err := OutputsSyntacticalImplicitAccountCreationAddress()(index, o)
		g.Ensures((err == nil) == !isImplicit(s.Address().Address), "other outputs are not owned by implicit account creation addresses")
	}
}

//gvc:contract target=OutputsSyntacticalCommitmentInput props=C12,C08,C10 opaque=iface:(Output).FeatureSet
func c_OutputsCommitmentInput(has bool, index int, o Output) {
	g.Requires(o != nil)
	err := OutputsSyntacticalCommitmentInput(has)(index, o)
	_, del := o.(*DelegationOutput)
	g.Ensures((err == nil) == (has || !del && o.FeatureSet().Staking() == nil && o.FeatureSet().BlockIssuer() == nil), "outputs which need a commitment input are accepted only with one")
}

//gvc:contract target=OutputsSyntacticalMetadataFeatureMaxSize props=C12 opaque=iface:(Output).FeatureSet,(MetadataFeature).mapSize,(StateMetadataFeature).mapSize
func c_OutputsMetadataMaxSize(index int, o Output) {
	g.Requires(o != nil)
	err := OutputsSyntacticalMetadataFeatureMaxSize()(index, o)
	m, s := o.FeatureSet().Metadata(), o.FeatureSet().StateMetadata()
	g.Ensures((err == nil) == ((m == nil || m.mapSize() <= MaxMetadataMapSize) && (s == nil || s.mapSize() <= MaxMetadataMapSize)), "an output is accepted iff its metadata has at most the maximum size")
}

//gvc:contract target=OutputsSyntacticalChainConstrainedOutputUniqueness props=C12,C08,C09,C10 opaque=iface:(ChainOutput).ChainID
func c_OutputsChainUnique(outputs TxEssenceOutputs) {
	g.Requires(outsNonNil(outputs))
	err := SyntacticallyValidateOutputs(outputs, OutputsSyntacticalChainConstrainedOutputUniqueness())
	g.Ensures((err == nil) == g.Forall(0, len(outputs), func(k int) bool {
		return g.Forall(0, k, func(j int) bool { return !sameChain(outputs[j], outputs[k]) })
	}), "outputs are accepted iff no chain occurs twice")
}

func sameChain(a, b Output) bool {
	x, isX := a.(ChainOutput)
	y, isY := b.(ChainOutput)
	return isX && isY && x.ChainID() == y.ChainID() && !y.ChainID().Empty()
}

//gvc:invariant for=c_OutputsChainUnique
func inv_ChainUnique(outputs TxEssenceOutputs, chainConstrainedOutputs ChainOutputSet, i int) bool {
	return g.Forall(0, i, func(k int) bool {
		c, is := outputs[k].(ChainOutput)
		if !is || c.ChainID().Empty() {
			return true
		}
		_, has := chainConstrainedOutputs[c.ChainID()]
		return has
	})
}

//gvc:invariant for=c_OutputsChainUnique
func inv_ChainUnique2(outputs TxEssenceOutputs, chainConstrainedOutputs ChainOutputSet, i int) bool {
	return g.ForallMap(chainConstrainedOutputs, func(id ChainID, o ChainOutput) bool {
		return !id.Empty() && g.Exists(0, i, func(k int) bool {
			c, is := outputs[k].(ChainOutput)
			return is && c.ChainID() == id
		})
	})
}

//gvc:invariant for=c_OutputsChainUnique
func inv_ChainUnique3(outputs TxEssenceOutputs, i int) bool {
	return g.Forall(0, i, func(k int) bool {
		return g.Forall(0, k, func(j int) bool { return !sameChain(outputs[j], outputs[k]) })
	})
}

func ucAscending[T UnlockCondition](l []T) bool {
	return g.Forall(1, len(l), func(i int) bool { return l[i-1].Type() < l[i].Type() })
}

func featAscending[T Feature](l []T) bool {
	return g.Forall(1, len(l), func(i int) bool { return l[i-1].Type() < l[i].Type() })
}

func ucListOK[T UnlockCondition](l []T) bool {
	return g.Forall(0, len(l), func(i int) bool { return !g.SameIface(l[i], nil) })
}

func featListOK[T Feature](l []T) bool {
	return g.Forall(0, len(l), func(i int) bool { return !g.SameIface(l[i], nil) })
}

//gvc:contract target=OutputsSyntacticalUnlockConditionLexicalOrderAndUniqueness props=C12
func c_OutputsUCOrder_Basic(index int, o *BasicOutput) {
	g.Requires(o != nil)
	l := o.UnlockConditions
	g.Requires(ucListOK(l))
	err := OutputsSyntacticalUnlockConditionLexicalOrderAndUniqueness()(index, o)
	g.Ensures((err == nil) == ucAscending(l), "an output is accepted iff the kinds of its unlock conditions are strictly ascending")
}

//gvc:invariant for=c_OutputsUCOrder_Basic
func inv_UCOrder_Basic(o *BasicOutput, prev *UnlockCondition, i int) bool {
	return g.Forall(1, i, func(k int) bool { return o.UnlockConditions[k-1].Type() < o.UnlockConditions[k].Type() }) && (i == 0) == (prev == nil) && (i == 0 || g.SameIface(*prev, o.UnlockConditions[i-1]))
}

//gvc:contract target=OutputsSyntacticalUnlockConditionLexicalOrderAndUniqueness props=C12
func c_OutputsUCOrder_Account(index int, o *AccountOutput) {
	g.Requires(o != nil)
	l := o.UnlockConditions
	g.Requires(ucListOK(l))
	err := OutputsSyntacticalUnlockConditionLexicalOrderAndUniqueness()(index, o)
	g.Ensures((err == nil) == ucAscending(l), "an output is accepted iff the kinds of its unlock conditions are strictly ascending")
}

//gvc:invariant for=c_OutputsUCOrder_Account
func inv_UCOrder_Account(o *AccountOutput, prev *UnlockCondition, i int) bool {
	return g.Forall(1, i, func(k int) bool { return o.UnlockConditions[k-1].Type() < o.UnlockConditions[k].Type() }) && (i == 0) == (prev == nil) && (i == 0 || g.SameIface(*prev, o.UnlockConditions[i-1]))
}

//gvc:contract target=OutputsSyntacticalUnlockConditionLexicalOrderAndUniqueness props=C12
func c_OutputsUCOrder_Anchor(index int, o *AnchorOutput) {
	g.Requires(o != nil)
	l := o.UnlockConditions
	g.Requires(ucListOK(l))
	err := OutputsSyntacticalUnlockConditionLexicalOrderAndUniqueness()(index, o)
	g.Ensures((err == nil) == ucAscending(l), "an output is accepted iff the kinds of its unlock conditions are strictly ascending")
}

//gvc:invariant for=c_OutputsUCOrder_Anchor
func inv_UCOrder_Anchor(o *AnchorOutput, prev *UnlockCondition, i int) bool {
	return g.Forall(1, i, func(k int) bool { return o.UnlockConditions[k-1].Type() < o.UnlockConditions[k].Type() }) && (i == 0) == (prev == nil) && (i == 0 || g.SameIface(*prev, o.UnlockConditions[i-1]))
}

//gvc:contract target=OutputsSyntacticalUnlockConditionLexicalOrderAndUniqueness props=C12
func c_OutputsUCOrder_Foundry(index int, o *FoundryOutput) {
	g.Requires(o != nil)
	l := o.UnlockConditions
	g.Requires(ucListOK(l))
	err := OutputsSyntacticalUnlockConditionLexicalOrderAndUniqueness()(index, o)
	g.Ensures((err == nil) == ucAscending(l), "an output is accepted iff the kinds of its unlock conditions are strictly ascending")
}

//gvc:invariant for=c_OutputsUCOrder_Foundry
func inv_UCOrder_Foundry(o *FoundryOutput, prev *UnlockCondition, i int) bool {
	return g.Forall(1, i, func(k int) bool { return o.UnlockConditions[k-1].Type() < o.UnlockConditions[k].Type() }) && (i == 0) == (prev == nil) && (i == 0 || g.SameIface(*prev, o.UnlockConditions[i-1]))
}

//gvc:contract target=OutputsSyntacticalUnlockConditionLexicalOrderAndUniqueness props=C12
func c_OutputsUCOrder_NFT(index int, o *NFTOutput) {
	g.Requires(o != nil)
	l := o.UnlockConditions
	g.Requires(ucListOK(l))
	err := OutputsSyntacticalUnlockConditionLexicalOrderAndUniqueness()(index, o)
	g.Ensures((err == nil) == ucAscending(l), "an output is accepted iff the kinds of its unlock conditions are strictly ascending")
}

//gvc:invariant for=c_OutputsUCOrder_NFT
func inv_UCOrder_NFT(o *NFTOutput, prev *UnlockCondition, i int) bool {
	return g.Forall(1, i, func(k int) bool { return o.UnlockConditions[k-1].Type() < o.UnlockConditions[k].Type() }) && (i == 0) == (prev == nil) && (i == 0 || g.SameIface(*prev, o.UnlockConditions[i-1]))
}

//gvc:contract target=OutputsSyntacticalUnlockConditionLexicalOrderAndUniqueness props=C12
func c_OutputsUCOrder_Delegation(index int, o *DelegationOutput) {
	g.Requires(o != nil)
	l := o.UnlockConditions
	g.Requires(ucListOK(l))
	err := OutputsSyntacticalUnlockConditionLexicalOrderAndUniqueness()(index, o)
	g.Ensures((err == nil) == ucAscending(l), "an output is accepted iff the kinds of its unlock conditions are strictly ascending")
}

//gvc:invariant for=c_OutputsUCOrder_Delegation
func inv_UCOrder_Delegation(o *DelegationOutput, prev *UnlockCondition, i int) bool {
	return g.Forall(1, i, func(k int) bool { return o.UnlockConditions[k-1].Type() < o.UnlockConditions[k].Type() }) && (i == 0) == (prev == nil) && (i == 0 || g.SameIface(*prev, o.UnlockConditions[i-1]))
}

//gvc:contract target=MetadataFeature.mapSize props=C12
func c_MetadataFeature_mapSize(m MetadataFeature) {
	want := g.K(1).Add(g.SumMap(m.Entries, func(k MetadataFeatureEntriesKey, v MetadataFeatureEntriesValue) g.Int {
		return g.N(len(k)).Add(g.N(len(v))).Add(g.K(3))
	}))
	g.Requires(want.Lt(g.Pow2(63)))
	g.Ensures(g.N(m.mapSize()).Eq(want), "the size of a metadata map is its length byte and, for every entry, the key and the value with their lengths")
}

//gvc:invariant for=c_MetadataFeature_mapSize
func inv_MetadataFeature_mapSize(m MetadataFeature, size int) bool {
	return g.N(size).Eq(g.K(1).Add(g.VisitedSum(m.Entries, func(k MetadataFeatureEntriesKey, v MetadataFeatureEntriesValue) g.Int {
		return g.N(len(k)).Add(g.N(len(v))).Add(g.K(3))
	})))
}

//gvc:contract target=StateMetadataFeature.mapSize props=C12
func c_StateMetadataFeature_mapSize(m StateMetadataFeature) {
	want := g.K(1).Add(g.SumMap(m.Entries, func(k StateMetadataFeatureEntriesKey, v StateMetadataFeatureEntriesValue) g.Int {
		return g.N(len(k)).Add(g.N(len(v))).Add(g.K(3))
	}))
	g.Requires(want.Lt(g.Pow2(63)))
	g.Ensures(g.N(m.mapSize()).Eq(want), "the size of a metadata map is its length byte and, for every entry, the key and the value with their lengths")
}

//gvc:invariant for=c_StateMetadataFeature_mapSize
func inv_StateMetadataFeature_mapSize(m StateMetadataFeature, size int) bool {
	return g.N(size).Eq(g.K(1).Add(g.VisitedSum(m.Entries, func(k StateMetadataFeatureEntriesKey, v StateMetadataFeatureEntriesValue) g.Int {
		return g.N(len(k)).Add(g.N(len(v))).Add(g.K(3))
	})))
}

//gvc:contract target=OutputsSyntacticalFeaturesLexicalOrderAndUniqueness props=C12
func c_OutputsFeatOrder_Basic(index int, o *BasicOutput) {
	g.Requires(o != nil && featListOK(o.Features))
	err := OutputsSyntacticalFeaturesLexicalOrderAndUniqueness()(index, o)
	g.Ensures((err == nil) == (featAscending(o.Features)), "an output is accepted iff the kinds of its features are strictly ascending")
}

//gvc:invariant for=c_OutputsFeatOrder_Basic
func inv_FeatOrder_Basic(o *BasicOutput, prev *Feature, i int) bool {
	return g.Forall(1, i, func(k int) bool { return o.Features[k-1].Type() < o.Features[k].Type() }) && (i == 0) == (prev == nil) && (i == 0 || g.SameIface(*prev, o.Features[i-1]))
}

//gvc:contract target=OutputsSyntacticalFeaturesLexicalOrderAndUniqueness props=C12
func c_OutputsFeatOrder_Account(index int, o *AccountOutput) {
	g.Requires(o != nil && featListOK(o.Features) && featListOK(o.ImmutableFeatures))
	err := OutputsSyntacticalFeaturesLexicalOrderAndUniqueness()(index, o)
	g.Ensures((err == nil) == (featAscending(o.Features) && featAscending(o.ImmutableFeatures)), "an output is accepted iff the kinds of its features are strictly ascending")
}

//gvc:invariant for=c_OutputsFeatOrder_Account
func inv_FeatOrder_Account(o *AccountOutput, prev *Feature, i int) bool {
	return g.Forall(1, i, func(k int) bool { return o.Features[k-1].Type() < o.Features[k].Type() }) && (i == 0) == (prev == nil) && (i == 0 || g.SameIface(*prev, o.Features[i-1]))
}

//gvc:invariant for=c_OutputsFeatOrder_Account
func inv_ImmFeatOrder_Account(o *AccountOutput, prev *Feature, i int) bool {
	return g.Forall(1, i, func(k int) bool { return o.ImmutableFeatures[k-1].Type() < o.ImmutableFeatures[k].Type() }) && (i == 0) == (prev == nil) && (i == 0 || g.SameIface(*prev, o.ImmutableFeatures[i-1]))
}

//gvc:contract target=OutputsSyntacticalFeaturesLexicalOrderAndUniqueness props=C12
func c_OutputsFeatOrder_Anchor(index int, o *AnchorOutput) {
	g.Requires(o != nil && featListOK(o.Features) && featListOK(o.ImmutableFeatures))
	err := OutputsSyntacticalFeaturesLexicalOrderAndUniqueness()(index, o)
	g.Ensures((err == nil) == (featAscending(o.Features) && featAscending(o.ImmutableFeatures)), "an output is accepted iff the kinds of its features are strictly ascending")
}

//gvc:invariant for=c_OutputsFeatOrder_Anchor
func inv_FeatOrder_Anchor(o *AnchorOutput, prev *Feature, i int) bool {
	return g.Forall(1, i, func(k int) bool { return o.Features[k-1].Type() < o.Features[k].Type() }) && (i == 0) == (prev == nil) && (i == 0 || g.SameIface(*prev, o.Features[i-1]))
}

//gvc:invariant for=c_OutputsFeatOrder_Anchor
func inv_ImmFeatOrder_Anchor(o *AnchorOutput, prev *Feature, i int) bool {
	return g.Forall(1, i, func(k int) bool { return o.ImmutableFeatures[k-1].Type() < o.ImmutableFeatures[k].Type() }) && (i == 0) == (prev == nil) && (i == 0 || g.SameIface(*prev, o.ImmutableFeatures[i-1]))
}

//gvc:contract target=OutputsSyntacticalFeaturesLexicalOrderAndUniqueness props=C12
func c_OutputsFeatOrder_Foundry(index int, o *FoundryOutput) {
	g.Requires(o != nil && featListOK(o.Features) && featListOK(o.ImmutableFeatures))
	err := OutputsSyntacticalFeaturesLexicalOrderAndUniqueness()(index, o)
	g.Ensures((err == nil) == (featAscending(o.Features) && featAscending(o.ImmutableFeatures)), "an output is accepted iff the kinds of its features are strictly ascending")
}

//gvc:invariant for=c_OutputsFeatOrder_Foundry
func inv_FeatOrder_Foundry(o *FoundryOutput, prev *Feature, i int) bool {
	return g.Forall(1, i, func(k int) bool { return o.Features[k-1].Type() < o.Features[k].Type() }) && (i == 0) == (prev == nil) && (i == 0 || g.SameIface(*prev, o.Features[i-1]))
}

//gvc:invariant for=c_OutputsFeatOrder_Foundry
func inv_ImmFeatOrder_Foundry(o *FoundryOutput, prev *Feature, i int) bool {
	return g.Forall(1, i, func(k int) bool { return o.ImmutableFeatures[k-1].Type() < o.ImmutableFeatures[k].Type() }) && (i == 0) == (prev == nil) && (i == 0 || g.SameIface(*prev, o.ImmutableFeatures[i-1]))
}

//gvc:contract target=OutputsSyntacticalFeaturesLexicalOrderAndUniqueness props=C12
func c_OutputsFeatOrder_NFT(index int, o *NFTOutput) {
	g.Requires(o != nil && featListOK(o.Features) && featListOK(o.ImmutableFeatures))
	err := OutputsSyntacticalFeaturesLexicalOrderAndUniqueness()(index, o)
	g.Ensures((err == nil) == (featAscending(o.Features) && featAscending(o.ImmutableFeatures)), "an output is accepted iff the kinds of its features are strictly ascending")
}

//gvc:invariant for=c_OutputsFeatOrder_NFT
func inv_FeatOrder_NFT(o *NFTOutput, prev *Feature, i int) bool {
	return g.Forall(1, i, func(k int) bool { return o.Features[k-1].Type() < o.Features[k].Type() }) && (i == 0) == (prev == nil) && (i == 0 || g.SameIface(*prev, o.Features[i-1]))
}

//gvc:invariant for=c_OutputsFeatOrder_NFT
func inv_ImmFeatOrder_NFT(o *NFTOutput, prev *Feature, i int) bool {
	return g.Forall(1, i, func(k int) bool { return o.ImmutableFeatures[k-1].Type() < o.ImmutableFeatures[k].Type() }) && (i == 0) == (prev == nil) && (i == 0 || g.SameIface(*prev, o.ImmutableFeatures[i-1]))
}
