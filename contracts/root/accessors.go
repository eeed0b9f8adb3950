// Code generated by tools/genaccessors.py.

package iotago

import (
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// ucListed: the set holds exactly the conditions of the list.
func ucListed[T UnlockCondition](f []T, set UnlockConditionSet) bool {
	return len(set) == len(f) && g.Forall(0, len(f), func(i int) bool { return g.SameIface(set[f[i].Type()], f[i]) })
}

func featListed[T Feature](f []T, set FeatureSet) bool {
	return len(set) == len(f) && g.Forall(0, len(f), func(i int) bool { return g.SameIface(set[f[i].Type()], f[i]) })
}

//gvc:contract target=(*BasicOutput).BaseTokenAmount props=C03,C05,C11 nopanic
func c_BasicOutput_BaseTokenAmount(o *BasicOutput) {
	g.Requires(o != nil)
	g.Ensures(o.BaseTokenAmount() == o.Amount, "the amount of an output is what its field says")
}

//gvc:contract target=(*BasicOutput).StoredMana props=C04,C22 nopanic
func c_BasicOutput_StoredMana(o *BasicOutput) {
	g.Requires(o != nil)
	g.Ensures(o.StoredMana() == o.Mana, "the stored mana of an output is what its field says")
}

//gvc:contract target=(*BasicOutput).Type props=C03,C12,C24 nopanic
func c_BasicOutput_Type(o *BasicOutput) {
	g.Requires(o != nil)
	g.Ensures(o.Type() == OutputBasic, "the output kind")
}

//gvc:contract target=(*BasicOutput).UnlockConditionSet props=C03,C06,C07,C12
func c_BasicOutput_UnlockConditionSet(o *BasicOutput) {
	g.Requires(o != nil)
	g.Assume(g.Forall(0, len(o.UnlockConditions), func(i int) bool { return !g.SameIface(o.UnlockConditions[i], nil) }), "lists have no nil elements")
	g.Ensures(ucListed(o.UnlockConditions, o.UnlockConditionSet()), "the set of unlock conditions is the list")
}

//gvc:contract target=(*BasicOutput).FeatureSet props=C05,C08,C09,C12
func c_BasicOutput_FeatureSet(o *BasicOutput) {
	g.Requires(o != nil)
	g.Assume(g.Forall(0, len(o.Features), func(i int) bool { return !g.SameIface(o.Features[i], nil) }), "lists have no nil elements")
	g.Ensures(featListed(o.Features, o.FeatureSet()), "the set of features is the list")
}

//gvc:contract target=(*AccountOutput).BaseTokenAmount props=C03,C05,C11 nopanic
func c_AccountOutput_BaseTokenAmount(o *AccountOutput) {
	g.Requires(o != nil)
	g.Ensures(o.BaseTokenAmount() == o.Amount, "the amount of an output is what its field says")
}

//gvc:contract target=(*AccountOutput).StoredMana props=C04,C22 nopanic
func c_AccountOutput_StoredMana(o *AccountOutput) {
	g.Requires(o != nil)
	g.Ensures(o.StoredMana() == o.Mana, "the stored mana of an output is what its field says")
}

//gvc:contract target=(*AccountOutput).Type props=C03,C12,C24 nopanic
func c_AccountOutput_Type(o *AccountOutput) {
	g.Requires(o != nil)
	g.Ensures(o.Type() == OutputAccount, "the output kind")
}

//gvc:contract target=(*AccountOutput).UnlockConditionSet props=C03,C06,C07,C12
func c_AccountOutput_UnlockConditionSet(o *AccountOutput) {
	g.Requires(o != nil)
	g.Assume(g.Forall(0, len(o.UnlockConditions), func(i int) bool { return !g.SameIface(o.UnlockConditions[i], nil) }), "lists have no nil elements")
	g.Ensures(ucListed(o.UnlockConditions, o.UnlockConditionSet()), "the set of unlock conditions is the list")
}

//gvc:contract target=(*AccountOutput).FeatureSet props=C05,C08,C09,C12
func c_AccountOutput_FeatureSet(o *AccountOutput) {
	g.Requires(o != nil)
	g.Assume(g.Forall(0, len(o.Features), func(i int) bool { return !g.SameIface(o.Features[i], nil) }), "lists have no nil elements")
	g.Ensures(featListed(o.Features, o.FeatureSet()), "the set of features is the list")
}

//gvc:contract target=(*AccountOutput).ImmutableFeatureSet props=C08,C09,C12
func c_AccountOutput_ImmutableFeatureSet(o *AccountOutput) {
	g.Requires(o != nil)
	g.Assume(g.Forall(0, len(o.ImmutableFeatures), func(i int) bool { return !g.SameIface(o.ImmutableFeatures[i], nil) }), "lists have no nil elements")
	g.Ensures(featListed(o.ImmutableFeatures, o.ImmutableFeatureSet()), "the set of immutable features is the list")
}

//gvc:contract target=(*AccountOutput).ChainID props=C08 nopanic
func c_AccountOutput_ChainID(o *AccountOutput) {
	g.Requires(o != nil)
	id, is := o.ChainID().(AccountID)
	g.Ensures(is && id == o.AccountID, "the chain of an output is named by its identifier")
}

//gvc:contract target=(*AnchorOutput).BaseTokenAmount props=C03,C05,C11 nopanic
func c_AnchorOutput_BaseTokenAmount(o *AnchorOutput) {
	g.Requires(o != nil)
	g.Ensures(o.BaseTokenAmount() == o.Amount, "the amount of an output is what its field says")
}

//gvc:contract target=(*AnchorOutput).StoredMana props=C04,C22 nopanic
func c_AnchorOutput_StoredMana(o *AnchorOutput) {
	g.Requires(o != nil)
	g.Ensures(o.StoredMana() == o.Mana, "the stored mana of an output is what its field says")
}

//gvc:contract target=(*AnchorOutput).Type props=C03,C12,C24 nopanic
func c_AnchorOutput_Type(o *AnchorOutput) {
	g.Requires(o != nil)
	g.Ensures(o.Type() == OutputAnchor, "the output kind")
}

//gvc:contract target=(*AnchorOutput).UnlockConditionSet props=C03,C06,C07,C12
func c_AnchorOutput_UnlockConditionSet(o *AnchorOutput) {
	g.Requires(o != nil)
	g.Assume(g.Forall(0, len(o.UnlockConditions), func(i int) bool { return !g.SameIface(o.UnlockConditions[i], nil) }), "lists have no nil elements")
	g.Ensures(ucListed(o.UnlockConditions, o.UnlockConditionSet()), "the set of unlock conditions is the list")
}

//gvc:contract target=(*AnchorOutput).FeatureSet props=C05,C08,C09,C12
func c_AnchorOutput_FeatureSet(o *AnchorOutput) {
	g.Requires(o != nil)
	g.Assume(g.Forall(0, len(o.Features), func(i int) bool { return !g.SameIface(o.Features[i], nil) }), "lists have no nil elements")
	g.Ensures(featListed(o.Features, o.FeatureSet()), "the set of features is the list")
}

//gvc:contract target=(*AnchorOutput).ImmutableFeatureSet props=C08,C09,C12
func c_AnchorOutput_ImmutableFeatureSet(o *AnchorOutput) {
	g.Requires(o != nil)
	g.Assume(g.Forall(0, len(o.ImmutableFeatures), func(i int) bool { return !g.SameIface(o.ImmutableFeatures[i], nil) }), "lists have no nil elements")
	g.Ensures(featListed(o.ImmutableFeatures, o.ImmutableFeatureSet()), "the set of immutable features is the list")
}

//gvc:contract target=(*AnchorOutput).ChainID props=C09 nopanic
func c_AnchorOutput_ChainID(o *AnchorOutput) {
	g.Requires(o != nil)
	id, is := o.ChainID().(AnchorID)
	g.Ensures(is && id == o.AnchorID, "the chain of an output is named by its identifier")
}

//gvc:contract target=(*FoundryOutput).BaseTokenAmount props=C03,C05,C11 nopanic
func c_FoundryOutput_BaseTokenAmount(o *FoundryOutput) {
	g.Requires(o != nil)
	g.Ensures(o.BaseTokenAmount() == o.Amount, "the amount of an output is what its field says")
}

//gvc:contract target=(*FoundryOutput).StoredMana props=C04,C22 nopanic
func c_FoundryOutput_StoredMana(o *FoundryOutput) {
	g.Requires(o != nil)
	g.Ensures(o.StoredMana() == 0, "the stored mana of an output is what its field says")
}

//gvc:contract target=(*FoundryOutput).Type props=C03,C12,C24 nopanic
func c_FoundryOutput_Type(o *FoundryOutput) {
	g.Requires(o != nil)
	g.Ensures(o.Type() == OutputFoundry, "the output kind")
}

//gvc:contract target=(*FoundryOutput).UnlockConditionSet props=C03,C06,C07,C12
func c_FoundryOutput_UnlockConditionSet(o *FoundryOutput) {
	g.Requires(o != nil)
	g.Assume(g.Forall(0, len(o.UnlockConditions), func(i int) bool { return !g.SameIface(o.UnlockConditions[i], nil) }), "lists have no nil elements")
	g.Ensures(ucListed(o.UnlockConditions, o.UnlockConditionSet()), "the set of unlock conditions is the list")
}

//gvc:contract target=(*FoundryOutput).FeatureSet props=C05,C08,C09,C12
func c_FoundryOutput_FeatureSet(o *FoundryOutput) {
	g.Requires(o != nil)
	g.Assume(g.Forall(0, len(o.Features), func(i int) bool { return !g.SameIface(o.Features[i], nil) }), "lists have no nil elements")
	g.Ensures(featListed(o.Features, o.FeatureSet()), "the set of features is the list")
}

//gvc:contract target=(*FoundryOutput).ImmutableFeatureSet props=C08,C09,C12
func c_FoundryOutput_ImmutableFeatureSet(o *FoundryOutput) {
	g.Requires(o != nil)
	g.Assume(g.Forall(0, len(o.ImmutableFeatures), func(i int) bool { return !g.SameIface(o.ImmutableFeatures[i], nil) }), "lists have no nil elements")
	g.Ensures(featListed(o.ImmutableFeatures, o.ImmutableFeatureSet()), "the set of immutable features is the list")
}

//gvc:contract target=(*NFTOutput).BaseTokenAmount props=C03,C05,C11 nopanic
func c_NFTOutput_BaseTokenAmount(o *NFTOutput) {
	g.Requires(o != nil)
	g.Ensures(o.BaseTokenAmount() == o.Amount, "the amount of an output is what its field says")
}

//gvc:contract target=(*NFTOutput).StoredMana props=C04,C22 nopanic
func c_NFTOutput_StoredMana(o *NFTOutput) {
	g.Requires(o != nil)
	g.Ensures(o.StoredMana() == o.Mana, "the stored mana of an output is what its field says")
}

//gvc:contract target=(*NFTOutput).Type props=C03,C12,C24 nopanic
func c_NFTOutput_Type(o *NFTOutput) {
	g.Requires(o != nil)
	g.Ensures(o.Type() == OutputNFT, "the output kind")
}

//gvc:contract target=(*NFTOutput).UnlockConditionSet props=C03,C06,C07,C12
func c_NFTOutput_UnlockConditionSet(o *NFTOutput) {
	g.Requires(o != nil)
	g.Assume(g.Forall(0, len(o.UnlockConditions), func(i int) bool { return !g.SameIface(o.UnlockConditions[i], nil) }), "lists have no nil elements")
	g.Ensures(ucListed(o.UnlockConditions, o.UnlockConditionSet()), "the set of unlock conditions is the list")
}

//gvc:contract target=(*NFTOutput).FeatureSet props=C05,C08,C09,C12
func c_NFTOutput_FeatureSet(o *NFTOutput) {
	g.Requires(o != nil)
	g.Assume(g.Forall(0, len(o.Features), func(i int) bool { return !g.SameIface(o.Features[i], nil) }), "lists have no nil elements")
	g.Ensures(featListed(o.Features, o.FeatureSet()), "the set of features is the list")
}

//gvc:contract target=(*NFTOutput).ImmutableFeatureSet props=C08,C09,C12
func c_NFTOutput_ImmutableFeatureSet(o *NFTOutput) {
	g.Requires(o != nil)
	g.Assume(g.Forall(0, len(o.ImmutableFeatures), func(i int) bool { return !g.SameIface(o.ImmutableFeatures[i], nil) }), "lists have no nil elements")
	g.Ensures(featListed(o.ImmutableFeatures, o.ImmutableFeatureSet()), "the set of immutable features is the list")
}

//gvc:contract target=(*NFTOutput).ChainID props=C09 nopanic
func c_NFTOutput_ChainID(o *NFTOutput) {
	g.Requires(o != nil)
	id, is := o.ChainID().(NFTID)
	g.Ensures(is && id == o.NFTID, "the chain of an output is named by its identifier")
}

//gvc:contract target=(*DelegationOutput).BaseTokenAmount props=C03,C05,C11 nopanic
func c_DelegationOutput_BaseTokenAmount(o *DelegationOutput) {
	g.Requires(o != nil)
	g.Ensures(o.BaseTokenAmount() == o.Amount, "the amount of an output is what its field says")
}

//gvc:contract target=(*DelegationOutput).StoredMana props=C04,C22 nopanic
func c_DelegationOutput_StoredMana(o *DelegationOutput) {
	g.Requires(o != nil)
	g.Ensures(o.StoredMana() == 0, "the stored mana of an output is what its field says")
}

//gvc:contract target=(*DelegationOutput).Type props=C03,C12,C24 nopanic
func c_DelegationOutput_Type(o *DelegationOutput) {
	g.Requires(o != nil)
	g.Ensures(o.Type() == OutputDelegation, "the output kind")
}

//gvc:contract target=(*DelegationOutput).UnlockConditionSet props=C03,C06,C07,C12
func c_DelegationOutput_UnlockConditionSet(o *DelegationOutput) {
	g.Requires(o != nil)
	g.Assume(g.Forall(0, len(o.UnlockConditions), func(i int) bool { return !g.SameIface(o.UnlockConditions[i], nil) }), "lists have no nil elements")
	g.Ensures(ucListed(o.UnlockConditions, o.UnlockConditionSet()), "the set of unlock conditions is the list")
}

//gvc:contract target=(*DelegationOutput).FeatureSet props=C05,C10 nopanic
func c_DelegationOutput_FeatureSet(o *DelegationOutput) {
	g.Requires(o != nil)
	g.Ensures(len(o.FeatureSet()) == 0, "a delegation has no features")
}

//gvc:contract target=(*DelegationOutput).ChainID props=C10 nopanic
func c_DelegationOutput_ChainID(o *DelegationOutput) {
	g.Requires(o != nil)
	id, is := o.ChainID().(DelegationID)
	g.Ensures(is && id == o.DelegationID, "the chain of an output is named by its identifier")
}

//gvc:contract target=FeatureSet.SenderFeature props=C09,C12
func c_FeatureSet_SenderFeature(f FeatureSet) {
	g.Requires(featSetOK(f))
	r := f.SenderFeature()
	e, has := f[FeatureSender]
	g.Ensures((r != nil) == has, "a feature is found if and only if the set holds it")
	if has && !g.SameIface(e, nil) {
		t, is := e.(*SenderFeature)
		g.Ensures(is && t == r, "the feature found is the one in the set")
	}
}

//gvc:contract target=(*SenderFeature).Type props=C09,C12 nopanic
func c_SenderFeature_Type(f *SenderFeature) {
	g.Requires(f != nil)
	g.Ensures(f.Type() == FeatureSender, "the feature type")
}

//gvc:contract target=FeatureSet.Issuer props=C09
func c_FeatureSet_Issuer(f FeatureSet) {
	g.Requires(featSetOK(f))
	r := f.Issuer()
	e, has := f[FeatureIssuer]
	g.Ensures((r != nil) == has, "a feature is found if and only if the set holds it")
	if has && !g.SameIface(e, nil) {
		t, is := e.(*IssuerFeature)
		g.Ensures(is && t == r, "the feature found is the one in the set")
	}
}

//gvc:contract target=(*IssuerFeature).Type props=C09 nopanic
func c_IssuerFeature_Type(f *IssuerFeature) {
	g.Requires(f != nil)
	g.Ensures(f.Type() == FeatureIssuer, "the feature type")
}

//gvc:contract target=FeatureSet.Metadata props=C09,C12
func c_FeatureSet_Metadata(f FeatureSet) {
	g.Requires(featSetOK(f))
	r := f.Metadata()
	e, has := f[FeatureMetadata]
	g.Ensures((r != nil) == has, "a feature is found if and only if the set holds it")
	if has && !g.SameIface(e, nil) {
		t, is := e.(*MetadataFeature)
		g.Ensures(is && t == r, "the feature found is the one in the set")
	}
}

//gvc:contract target=(*MetadataFeature).Type props=C09,C12 nopanic
func c_MetadataFeature_Type(f *MetadataFeature) {
	g.Requires(f != nil)
	g.Ensures(f.Type() == FeatureMetadata, "the feature type")
}

//gvc:contract target=FeatureSet.StateMetadata props=C09,C12
func c_FeatureSet_StateMetadata(f FeatureSet) {
	g.Requires(featSetOK(f))
	r := f.StateMetadata()
	e, has := f[FeatureStateMetadata]
	g.Ensures((r != nil) == has, "a feature is found if and only if the set holds it")
	if has && !g.SameIface(e, nil) {
		t, is := e.(*StateMetadataFeature)
		g.Ensures(is && t == r, "the feature found is the one in the set")
	}
}

//gvc:contract target=(*StateMetadataFeature).Type props=C09,C12 nopanic
func c_StateMetadataFeature_Type(f *StateMetadataFeature) {
	g.Requires(f != nil)
	g.Ensures(f.Type() == FeatureStateMetadata, "the feature type")
}

//gvc:contract target=FeatureSet.Tag props=C09,C12
func c_FeatureSet_Tag(f FeatureSet) {
	g.Requires(featSetOK(f))
	r := f.Tag()
	e, has := f[FeatureTag]
	g.Ensures((r != nil) == has, "a feature is found if and only if the set holds it")
	if has && !g.SameIface(e, nil) {
		t, is := e.(*TagFeature)
		g.Ensures(is && t == r, "the feature found is the one in the set")
	}
}

//gvc:contract target=(*TagFeature).Type props=C09,C12 nopanic
func c_TagFeature_Type(f *TagFeature) {
	g.Requires(f != nil)
	g.Ensures(f.Type() == FeatureTag, "the feature type")
}

//gvc:contract target=FeatureSet.NativeToken props=C05
func c_FeatureSet_NativeToken(f FeatureSet) {
	g.Requires(featSetOK(f))
	r := f.NativeToken()
	e, has := f[FeatureNativeToken]
	g.Ensures((r != nil) == has, "a feature is found if and only if the set holds it")
	if has && !g.SameIface(e, nil) {
		t, is := e.(*NativeTokenFeature)
		g.Ensures(is && t == r, "the feature found is the one in the set")
	}
}

//gvc:contract target=(*NativeTokenFeature).Type props=C05 nopanic
func c_NativeTokenFeature_Type(f *NativeTokenFeature) {
	g.Requires(f != nil)
	g.Ensures(f.Type() == FeatureNativeToken, "the feature type")
}

//gvc:contract target=FeatureSet.BlockIssuer props=C08
func c_FeatureSet_BlockIssuer(f FeatureSet) {
	g.Requires(featSetOK(f))
	r := f.BlockIssuer()
	e, has := f[FeatureBlockIssuer]
	g.Ensures((r != nil) == has, "a feature is found if and only if the set holds it")
	if has && !g.SameIface(e, nil) {
		t, is := e.(*BlockIssuerFeature)
		g.Ensures(is && t == r, "the feature found is the one in the set")
	}
}

//gvc:contract target=(*BlockIssuerFeature).Type props=C08 nopanic
func c_BlockIssuerFeature_Type(f *BlockIssuerFeature) {
	g.Requires(f != nil)
	g.Ensures(f.Type() == FeatureBlockIssuer, "the feature type")
}

//gvc:contract target=FeatureSet.Staking props=C08
func c_FeatureSet_Staking(f FeatureSet) {
	g.Requires(featSetOK(f))
	r := f.Staking()
	e, has := f[FeatureStaking]
	g.Ensures((r != nil) == has, "a feature is found if and only if the set holds it")
	if has && !g.SameIface(e, nil) {
		t, is := e.(*StakingFeature)
		g.Ensures(is && t == r, "the feature found is the one in the set")
	}
}

//gvc:contract target=(*StakingFeature).Type props=C08 nopanic
func c_StakingFeature_Type(f *StakingFeature) {
	g.Requires(f != nil)
	g.Ensures(f.Type() == FeatureStaking, "the feature type")
}

//gvc:contract target=UnlockConditionSet.StorageDepositReturn props=C03
func c_UnlockConditionSet_getStorageDepositReturn(f UnlockConditionSet) {
	g.Requires(ucSetOK(f))
	r := f.StorageDepositReturn()
	e, has := f[UnlockConditionStorageDepositReturn]
	g.Ensures((r != nil) == has, "a condition is found if and only if the set holds it")
	if has && !g.SameIface(e, nil) {
		t, is := e.(*StorageDepositReturnUnlockCondition)
		g.Ensures(is && t == r, "the condition found is the one in the set")
	}
}

//gvc:contract target=(*StorageDepositReturnUnlockCondition).Type props=C03 nopanic
func c_StorageDepositReturnUnlockCondition_Type(u *StorageDepositReturnUnlockCondition) {
	g.Requires(u != nil)
	g.Ensures(u.Type() == UnlockConditionStorageDepositReturn, "the condition type")
}

//gvc:contract target=UnlockConditionSet.Expiration props=C07
func c_UnlockConditionSet_getExpiration(f UnlockConditionSet) {
	g.Requires(ucSetOK(f))
	r := f.Expiration()
	e, has := f[UnlockConditionExpiration]
	g.Ensures((r != nil) == has, "a condition is found if and only if the set holds it")
	if has && !g.SameIface(e, nil) {
		t, is := e.(*ExpirationUnlockCondition)
		g.Ensures(is && t == r, "the condition found is the one in the set")
	}
}

//gvc:contract target=(*ExpirationUnlockCondition).Type props=C07 nopanic
func c_ExpirationUnlockCondition_Type(u *ExpirationUnlockCondition) {
	g.Requires(u != nil)
	g.Ensures(u.Type() == UnlockConditionExpiration, "the condition type")
}

//gvc:contract target=UnlockConditionSet.Timelock props=C07
func c_UnlockConditionSet_getTimelock(f UnlockConditionSet) {
	g.Requires(ucSetOK(f))
	r := f.Timelock()
	e, has := f[UnlockConditionTimelock]
	g.Ensures((r != nil) == has, "a condition is found if and only if the set holds it")
	if has && !g.SameIface(e, nil) {
		t, is := e.(*TimelockUnlockCondition)
		g.Ensures(is && t == r, "the condition found is the one in the set")
	}
}

//gvc:contract target=(*TimelockUnlockCondition).Type props=C07 nopanic
func c_TimelockUnlockCondition_Type(u *TimelockUnlockCondition) {
	g.Requires(u != nil)
	g.Ensures(u.Type() == UnlockConditionTimelock, "the condition type")
}

//gvc:contract target=UnlockConditionSet.Address props=C06,C07
func c_UnlockConditionSet_getAddress(f UnlockConditionSet) {
	g.Requires(ucSetOK(f))
	r := f.Address()
	e, has := f[UnlockConditionAddress]
	g.Ensures((r != nil) == has, "a condition is found if and only if the set holds it")
	if has && !g.SameIface(e, nil) {
		t, is := e.(*AddressUnlockCondition)
		g.Ensures(is && t == r, "the condition found is the one in the set")
	}
}

//gvc:contract target=(*AddressUnlockCondition).Type props=C06,C07 nopanic
func c_AddressUnlockCondition_Type(u *AddressUnlockCondition) {
	g.Requires(u != nil)
	g.Ensures(u.Type() == UnlockConditionAddress, "the condition type")
}

//gvc:contract target=UnlockConditionSet.ImmutableAccount props=C06,C09
func c_UnlockConditionSet_getImmutableAccount(f UnlockConditionSet) {
	g.Requires(ucSetOK(f))
	r := f.ImmutableAccount()
	e, has := f[UnlockConditionImmutableAccount]
	g.Ensures((r != nil) == has, "a condition is found if and only if the set holds it")
	if has && !g.SameIface(e, nil) {
		t, is := e.(*ImmutableAccountUnlockCondition)
		g.Ensures(is && t == r, "the condition found is the one in the set")
	}
}

//gvc:contract target=(*ImmutableAccountUnlockCondition).Type props=C06,C09 nopanic
func c_ImmutableAccountUnlockCondition_Type(u *ImmutableAccountUnlockCondition) {
	g.Requires(u != nil)
	g.Ensures(u.Type() == UnlockConditionImmutableAccount, "the condition type")
}

//gvc:contract target=UnlockConditionSet.GovernorAddress props=C06,C09
func c_UnlockConditionSet_getGovernorAddress(f UnlockConditionSet) {
	g.Requires(ucSetOK(f))
	r := f.GovernorAddress()
	e, has := f[UnlockConditionGovernorAddress]
	g.Ensures((r != nil) == has, "a condition is found if and only if the set holds it")
	if has && !g.SameIface(e, nil) {
		t, is := e.(*GovernorAddressUnlockCondition)
		g.Ensures(is && t == r, "the condition found is the one in the set")
	}
}

//gvc:contract target=(*GovernorAddressUnlockCondition).Type props=C06,C09 nopanic
func c_GovernorAddressUnlockCondition_Type(u *GovernorAddressUnlockCondition) {
	g.Requires(u != nil)
	g.Ensures(u.Type() == UnlockConditionGovernorAddress, "the condition type")
}

//gvc:contract target=UnlockConditionSet.StateControllerAddress props=C06,C09
func c_UnlockConditionSet_getStateControllerAddress(f UnlockConditionSet) {
	g.Requires(ucSetOK(f))
	r := f.StateControllerAddress()
	e, has := f[UnlockConditionStateControllerAddress]
	g.Ensures((r != nil) == has, "a condition is found if and only if the set holds it")
	if has && !g.SameIface(e, nil) {
		t, is := e.(*StateControllerAddressUnlockCondition)
		g.Ensures(is && t == r, "the condition found is the one in the set")
	}
}

//gvc:contract target=(*StateControllerAddressUnlockCondition).Type props=C06,C09 nopanic
func c_StateControllerAddressUnlockCondition_Type(u *StateControllerAddressUnlockCondition) {
	g.Requires(u != nil)
	g.Ensures(u.Type() == UnlockConditionStateControllerAddress, "the condition type")
}

//gvc:contract target=(*Ed25519Address).ID props=C06,C13,C16 nopanic
func c_Ed25519Address_ID(addr *Ed25519Address) {
	g.Requires(addr != nil)
	r := addr.ID()
	g.Ensures(len(r) == 33 && r[0] == byte(AddressEd25519), "an address identifier starts with the address type")
	g.Ensures(g.Forall(0, 32, func(i int) bool { return r[i+1] == addr[i] }), "followed by the bytes of the address")
}

//gvc:contract target=(*Ed25519Address).Key props=C06,C03 nopanic
func c_Ed25519Address_Key(addr *Ed25519Address) {
	g.Requires(addr != nil)
	g.Ensures(addr.Key() == string(addr.ID()), "the key is the identifier")
}

//gvc:contract target=(*Ed25519Address).Equal props=C06,C16 nopanic
func c_Ed25519Address_Equal(addr *Ed25519Address, other Address) {
	g.Requires(addr != nil)
	o, is := other.(*Ed25519Address)
	g.Requires(!is || o != nil)
	r := addr.Equal(other)
	g.Ensures(r == (is && *addr == *o), "addresses are equal if and only if type and bytes are")
}

//gvc:contract target=(*Ed25519Address).Type props=C06,C16 nopanic
func c_Ed25519Address_Type(addr *Ed25519Address) {
	g.Requires(addr != nil)
	g.Ensures(addr.Type() == AddressEd25519, "the address type")
}

//gvc:contract target=(*AccountAddress).ID props=C06,C13,C16 nopanic
func c_AccountAddress_ID(addr *AccountAddress) {
	g.Requires(addr != nil)
	r := addr.ID()
	g.Ensures(len(r) == 33 && r[0] == byte(AddressAccount), "an address identifier starts with the address type")
	g.Ensures(g.Forall(0, 32, func(i int) bool { return r[i+1] == addr[i] }), "followed by the bytes of the address")
}

//gvc:contract target=(*AccountAddress).Key props=C06,C03 nopanic
func c_AccountAddress_Key(addr *AccountAddress) {
	g.Requires(addr != nil)
	g.Ensures(addr.Key() == string(addr.ID()), "the key is the identifier")
}

//gvc:contract target=(*AccountAddress).Equal props=C06,C16 nopanic
func c_AccountAddress_Equal(addr *AccountAddress, other Address) {
	g.Requires(addr != nil)
	o, is := other.(*AccountAddress)
	g.Requires(!is || o != nil)
	r := addr.Equal(other)
	g.Ensures(r == (is && *addr == *o), "addresses are equal if and only if type and bytes are")
}

//gvc:contract target=(*AccountAddress).Type props=C06,C16 nopanic
func c_AccountAddress_Type(addr *AccountAddress) {
	g.Requires(addr != nil)
	g.Ensures(addr.Type() == AddressAccount, "the address type")
}

//gvc:contract target=(*AnchorAddress).ID props=C06,C13,C16 nopanic
func c_AnchorAddress_ID(addr *AnchorAddress) {
	g.Requires(addr != nil)
	r := addr.ID()
	g.Ensures(len(r) == 33 && r[0] == byte(AddressAnchor), "an address identifier starts with the address type")
	g.Ensures(g.Forall(0, 32, func(i int) bool { return r[i+1] == addr[i] }), "followed by the bytes of the address")
}

//gvc:contract target=(*AnchorAddress).Key props=C06,C03 nopanic
func c_AnchorAddress_Key(addr *AnchorAddress) {
	g.Requires(addr != nil)
	g.Ensures(addr.Key() == string(addr.ID()), "the key is the identifier")
}

//gvc:contract target=(*AnchorAddress).Equal props=C06,C16 nopanic
func c_AnchorAddress_Equal(addr *AnchorAddress, other Address) {
	g.Requires(addr != nil)
	o, is := other.(*AnchorAddress)
	g.Requires(!is || o != nil)
	r := addr.Equal(other)
	g.Ensures(r == (is && *addr == *o), "addresses are equal if and only if type and bytes are")
}

//gvc:contract target=(*AnchorAddress).Type props=C06,C16 nopanic
func c_AnchorAddress_Type(addr *AnchorAddress) {
	g.Requires(addr != nil)
	g.Ensures(addr.Type() == AddressAnchor, "the address type")
}

//gvc:contract target=(*NFTAddress).ID props=C06,C13,C16 nopanic
func c_NFTAddress_ID(addr *NFTAddress) {
	g.Requires(addr != nil)
	r := addr.ID()
	g.Ensures(len(r) == 33 && r[0] == byte(AddressNFT), "an address identifier starts with the address type")
	g.Ensures(g.Forall(0, 32, func(i int) bool { return r[i+1] == addr[i] }), "followed by the bytes of the address")
}

//gvc:contract target=(*NFTAddress).Key props=C06,C03 nopanic
func c_NFTAddress_Key(addr *NFTAddress) {
	g.Requires(addr != nil)
	g.Ensures(addr.Key() == string(addr.ID()), "the key is the identifier")
}

//gvc:contract target=(*NFTAddress).Equal props=C06,C16 nopanic
func c_NFTAddress_Equal(addr *NFTAddress, other Address) {
	g.Requires(addr != nil)
	o, is := other.(*NFTAddress)
	g.Requires(!is || o != nil)
	r := addr.Equal(other)
	g.Ensures(r == (is && *addr == *o), "addresses are equal if and only if type and bytes are")
}

//gvc:contract target=(*NFTAddress).Type props=C06,C16 nopanic
func c_NFTAddress_Type(addr *NFTAddress) {
	g.Requires(addr != nil)
	g.Ensures(addr.Type() == AddressNFT, "the address type")
}

//gvc:contract target=(*ImplicitAccountCreationAddress).ID props=C06,C13,C16 nopanic
func c_ImplicitAccountCreationAddress_ID(addr *ImplicitAccountCreationAddress) {
	g.Requires(addr != nil)
	r := addr.ID()
	g.Ensures(len(r) == 33 && r[0] == byte(AddressImplicitAccountCreation), "an address identifier starts with the address type")
	g.Ensures(g.Forall(0, 32, func(i int) bool { return r[i+1] == addr[i] }), "followed by the bytes of the address")
}

//gvc:contract target=(*ImplicitAccountCreationAddress).Key props=C06,C03 nopanic
func c_ImplicitAccountCreationAddress_Key(addr *ImplicitAccountCreationAddress) {
	g.Requires(addr != nil)
	g.Ensures(addr.Key() == string(addr.ID()), "the key is the identifier")
}

//gvc:contract target=(*ImplicitAccountCreationAddress).Equal props=C06,C16 nopanic
func c_ImplicitAccountCreationAddress_Equal(addr *ImplicitAccountCreationAddress, other Address) {
	g.Requires(addr != nil)
	o, is := other.(*ImplicitAccountCreationAddress)
	g.Requires(!is || o != nil)
	r := addr.Equal(other)
	g.Ensures(r == (is && *addr == *o), "addresses are equal if and only if type and bytes are")
}

//gvc:contract target=(*ImplicitAccountCreationAddress).Type props=C06,C16 nopanic
func c_ImplicitAccountCreationAddress_Type(addr *ImplicitAccountCreationAddress) {
	g.Requires(addr != nil)
	g.Ensures(addr.Type() == AddressImplicitAccountCreation, "the address type")
}
