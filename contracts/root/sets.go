// Code generated by tools/gensets.py.

package iotago

import (
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// ucSetOK: every entry of the set is filed under its own type.
func ucSetOK(f UnlockConditionSet) bool {
	return g.ForallMap(f, func(k UnlockConditionType, v UnlockCondition) bool { return v != nil && v.Type() == k })
}

func featSetOK(f FeatureSet) bool {
	return g.ForallMap(f, func(k FeatureType, v Feature) bool { return v != nil && v.Type() == k })
}

func ucSetSpec[T UnlockCondition](f UnlockConditions[T]) (UnlockConditionSet, error) {
	g.Assume(g.Forall(0, len(f), func(i int) bool { return !g.SameIface(f[i], nil) }), "unlock condition lists have no nil elements")
	set, err := f.Set()
	if err == nil {
		g.Ensures(set != nil, "there is a set")
		g.Ensures(ucSetOK(set), "entries are filed under their own type")
		g.Ensures(g.Forall(0, len(f), func(i int) bool { return g.SameIface(set[f[i].Type()], f[i]) }), "the set holds every element of the list")
		g.Ensures(len(set) == len(f), "the set has as many entries as the list")
	} else {
		g.Ensures(set == nil, "no set on error")
		g.Ensures(g.Exists(0, len(f), func(i int) bool { return g.Exists(0, i, func(k int) bool { return f[i].Type() == f[k].Type() }) }), "an error means that a type occurs twice")
	}
	return set, err
}

func featSetSpec[T Feature](f Features[T]) (FeatureSet, error) {
	g.Assume(g.Forall(0, len(f), func(i int) bool { return !g.SameIface(f[i], nil) }), "feature lists have no nil elements")
	set, err := f.Set()
	if err == nil {
		g.Ensures(set != nil, "there is a set")
		g.Ensures(featSetOK(set), "entries are filed under their own type")
		g.Ensures(g.Forall(0, len(f), func(i int) bool { return g.SameIface(set[f[i].Type()], f[i]) }), "the set holds every element of the list")
		g.Ensures(len(set) == len(f), "the set has as many entries as the list")
	} else {
		g.Ensures(set == nil, "no set on error")
		g.Ensures(g.Exists(0, len(f), func(i int) bool { return g.Exists(0, i, func(k int) bool { return f[i].Type() == f[k].Type() }) }), "an error means that a type occurs twice")
	}
	return set, err
}

//gvc:contract target=(UnlockConditions[T]).Set props=C12,C07,C06,C08,C09 modular pure
func c_Set_BasicUC(f BasicOutputUnlockConditions) (UnlockConditionSet, error) { return ucSetSpec(f) }

//gvc:invariant for=c_Set_BasicUC
func inv_Set_BasicUC(f BasicOutputUnlockConditions, set UnlockConditionSet, i int) bool {
	return ucSetOK(set) && len(set) == i && g.Forall(0, i, func(k int) bool { return g.SameIface(set[f[k].Type()], f[k]) })
}

//gvc:invariant for=c_Set_BasicUC
func inv_Set2_BasicUC(f BasicOutputUnlockConditions, set UnlockConditionSet, i int) bool {
	return g.ForallMap(set, func(t UnlockConditionType, v UnlockCondition) bool {
		return g.Exists(0, i, func(k int) bool { return f[k].Type() == t })
	})
}

//gvc:contract target=(UnlockConditions[T]).Set props=C12,C07,C06,C08,C09 modular pure
func c_Set_AccountUC(f AccountOutputUnlockConditions) (UnlockConditionSet, error) {
	return ucSetSpec(f)
}

//gvc:invariant for=c_Set_AccountUC
func inv_Set_AccountUC(f AccountOutputUnlockConditions, set UnlockConditionSet, i int) bool {
	return ucSetOK(set) && len(set) == i && g.Forall(0, i, func(k int) bool { return g.SameIface(set[f[k].Type()], f[k]) })
}

//gvc:invariant for=c_Set_AccountUC
func inv_Set2_AccountUC(f AccountOutputUnlockConditions, set UnlockConditionSet, i int) bool {
	return g.ForallMap(set, func(t UnlockConditionType, v UnlockCondition) bool {
		return g.Exists(0, i, func(k int) bool { return f[k].Type() == t })
	})
}

//gvc:contract target=(UnlockConditions[T]).Set props=C12,C07,C06,C08,C09 modular pure
func c_Set_AnchorUC(f AnchorOutputUnlockConditions) (UnlockConditionSet, error) { return ucSetSpec(f) }

//gvc:invariant for=c_Set_AnchorUC
func inv_Set_AnchorUC(f AnchorOutputUnlockConditions, set UnlockConditionSet, i int) bool {
	return ucSetOK(set) && len(set) == i && g.Forall(0, i, func(k int) bool { return g.SameIface(set[f[k].Type()], f[k]) })
}

//gvc:invariant for=c_Set_AnchorUC
func inv_Set2_AnchorUC(f AnchorOutputUnlockConditions, set UnlockConditionSet, i int) bool {
	return g.ForallMap(set, func(t UnlockConditionType, v UnlockCondition) bool {
		return g.Exists(0, i, func(k int) bool { return f[k].Type() == t })
	})
}

//gvc:contract target=(UnlockConditions[T]).Set props=C12,C07,C06,C08,C09 modular pure
func c_Set_NFTUC(f NFTOutputUnlockConditions) (UnlockConditionSet, error) { return ucSetSpec(f) }

//gvc:invariant for=c_Set_NFTUC
func inv_Set_NFTUC(f NFTOutputUnlockConditions, set UnlockConditionSet, i int) bool {
	return ucSetOK(set) && len(set) == i && g.Forall(0, i, func(k int) bool { return g.SameIface(set[f[k].Type()], f[k]) })
}

//gvc:invariant for=c_Set_NFTUC
func inv_Set2_NFTUC(f NFTOutputUnlockConditions, set UnlockConditionSet, i int) bool {
	return g.ForallMap(set, func(t UnlockConditionType, v UnlockCondition) bool {
		return g.Exists(0, i, func(k int) bool { return f[k].Type() == t })
	})
}

//gvc:contract target=(UnlockConditions[T]).Set props=C12,C07,C06,C08,C09 modular pure
func c_Set_FoundryUC(f FoundryOutputUnlockConditions) (UnlockConditionSet, error) {
	return ucSetSpec(f)
}

//gvc:invariant for=c_Set_FoundryUC
func inv_Set_FoundryUC(f FoundryOutputUnlockConditions, set UnlockConditionSet, i int) bool {
	return ucSetOK(set) && len(set) == i && g.Forall(0, i, func(k int) bool { return g.SameIface(set[f[k].Type()], f[k]) })
}

//gvc:invariant for=c_Set_FoundryUC
func inv_Set2_FoundryUC(f FoundryOutputUnlockConditions, set UnlockConditionSet, i int) bool {
	return g.ForallMap(set, func(t UnlockConditionType, v UnlockCondition) bool {
		return g.Exists(0, i, func(k int) bool { return f[k].Type() == t })
	})
}

//gvc:contract target=(UnlockConditions[T]).Set props=C12,C07,C06,C08,C09 modular pure
func c_Set_DelegationUC(f DelegationOutputUnlockConditions) (UnlockConditionSet, error) {
	return ucSetSpec(f)
}

//gvc:invariant for=c_Set_DelegationUC
func inv_Set_DelegationUC(f DelegationOutputUnlockConditions, set UnlockConditionSet, i int) bool {
	return ucSetOK(set) && len(set) == i && g.Forall(0, i, func(k int) bool { return g.SameIface(set[f[k].Type()], f[k]) })
}

//gvc:invariant for=c_Set_DelegationUC
func inv_Set2_DelegationUC(f DelegationOutputUnlockConditions, set UnlockConditionSet, i int) bool {
	return g.ForallMap(set, func(t UnlockConditionType, v UnlockCondition) bool {
		return g.Exists(0, i, func(k int) bool { return f[k].Type() == t })
	})
}

//gvc:contract target=(Features[T]).Set props=C12,C07,C06,C08,C09 modular pure
func c_Set_BasicOutputFeatures(f BasicOutputFeatures) (FeatureSet, error) { return featSetSpec(f) }

//gvc:invariant for=c_Set_BasicOutputFeatures
func inv_Set_BasicOutputFeatures(f BasicOutputFeatures, set FeatureSet, i int) bool {
	return featSetOK(set) && len(set) == i && g.Forall(0, i, func(k int) bool { return g.SameIface(set[f[k].Type()], f[k]) })
}

//gvc:invariant for=c_Set_BasicOutputFeatures
func inv_Set2_BasicOutputFeatures(f BasicOutputFeatures, set FeatureSet, i int) bool {
	return g.ForallMap(set, func(t FeatureType, v Feature) bool {
		return g.Exists(0, i, func(k int) bool { return f[k].Type() == t })
	})
}

//gvc:contract target=(Features[T]).Set props=C12,C07,C06,C08,C09 modular pure
func c_Set_AccountOutputFeatures(f AccountOutputFeatures) (FeatureSet, error) { return featSetSpec(f) }

//gvc:invariant for=c_Set_AccountOutputFeatures
func inv_Set_AccountOutputFeatures(f AccountOutputFeatures, set FeatureSet, i int) bool {
	return featSetOK(set) && len(set) == i && g.Forall(0, i, func(k int) bool { return g.SameIface(set[f[k].Type()], f[k]) })
}

//gvc:invariant for=c_Set_AccountOutputFeatures
func inv_Set2_AccountOutputFeatures(f AccountOutputFeatures, set FeatureSet, i int) bool {
	return g.ForallMap(set, func(t FeatureType, v Feature) bool {
		return g.Exists(0, i, func(k int) bool { return f[k].Type() == t })
	})
}

//gvc:contract target=(Features[T]).Set props=C12,C07,C06,C08,C09 modular pure
func c_Set_AccountOutputImmFeatures(f AccountOutputImmFeatures) (FeatureSet, error) {
	return featSetSpec(f)
}

//gvc:invariant for=c_Set_AccountOutputImmFeatures
func inv_Set_AccountOutputImmFeatures(f AccountOutputImmFeatures, set FeatureSet, i int) bool {
	return featSetOK(set) && len(set) == i && g.Forall(0, i, func(k int) bool { return g.SameIface(set[f[k].Type()], f[k]) })
}

//gvc:invariant for=c_Set_AccountOutputImmFeatures
func inv_Set2_AccountOutputImmFeatures(f AccountOutputImmFeatures, set FeatureSet, i int) bool {
	return g.ForallMap(set, func(t FeatureType, v Feature) bool {
		return g.Exists(0, i, func(k int) bool { return f[k].Type() == t })
	})
}

//gvc:contract target=(Features[T]).Set props=C12,C07,C06,C08,C09 modular pure
func c_Set_AnchorOutputFeatures(f AnchorOutputFeatures) (FeatureSet, error) { return featSetSpec(f) }

//gvc:invariant for=c_Set_AnchorOutputFeatures
func inv_Set_AnchorOutputFeatures(f AnchorOutputFeatures, set FeatureSet, i int) bool {
	return featSetOK(set) && len(set) == i && g.Forall(0, i, func(k int) bool { return g.SameIface(set[f[k].Type()], f[k]) })
}

//gvc:invariant for=c_Set_AnchorOutputFeatures
func inv_Set2_AnchorOutputFeatures(f AnchorOutputFeatures, set FeatureSet, i int) bool {
	return g.ForallMap(set, func(t FeatureType, v Feature) bool {
		return g.Exists(0, i, func(k int) bool { return f[k].Type() == t })
	})
}

//gvc:contract target=(Features[T]).Set props=C12,C07,C06,C08,C09 modular pure
func c_Set_AnchorOutputImmFeatures(f AnchorOutputImmFeatures) (FeatureSet, error) {
	return featSetSpec(f)
}

//gvc:invariant for=c_Set_AnchorOutputImmFeatures
func inv_Set_AnchorOutputImmFeatures(f AnchorOutputImmFeatures, set FeatureSet, i int) bool {
	return featSetOK(set) && len(set) == i && g.Forall(0, i, func(k int) bool { return g.SameIface(set[f[k].Type()], f[k]) })
}

//gvc:invariant for=c_Set_AnchorOutputImmFeatures
func inv_Set2_AnchorOutputImmFeatures(f AnchorOutputImmFeatures, set FeatureSet, i int) bool {
	return g.ForallMap(set, func(t FeatureType, v Feature) bool {
		return g.Exists(0, i, func(k int) bool { return f[k].Type() == t })
	})
}

//gvc:contract target=(Features[T]).Set props=C12,C07,C06,C08,C09 modular pure
func c_Set_NFTOutputFeatures(f NFTOutputFeatures) (FeatureSet, error) { return featSetSpec(f) }

//gvc:invariant for=c_Set_NFTOutputFeatures
func inv_Set_NFTOutputFeatures(f NFTOutputFeatures, set FeatureSet, i int) bool {
	return featSetOK(set) && len(set) == i && g.Forall(0, i, func(k int) bool { return g.SameIface(set[f[k].Type()], f[k]) })
}

//gvc:invariant for=c_Set_NFTOutputFeatures
func inv_Set2_NFTOutputFeatures(f NFTOutputFeatures, set FeatureSet, i int) bool {
	return g.ForallMap(set, func(t FeatureType, v Feature) bool {
		return g.Exists(0, i, func(k int) bool { return f[k].Type() == t })
	})
}

//gvc:contract target=(Features[T]).Set props=C12,C07,C06,C08,C09 modular pure
func c_Set_NFTOutputImmFeatures(f NFTOutputImmFeatures) (FeatureSet, error) { return featSetSpec(f) }

//gvc:invariant for=c_Set_NFTOutputImmFeatures
func inv_Set_NFTOutputImmFeatures(f NFTOutputImmFeatures, set FeatureSet, i int) bool {
	return featSetOK(set) && len(set) == i && g.Forall(0, i, func(k int) bool { return g.SameIface(set[f[k].Type()], f[k]) })
}

//gvc:invariant for=c_Set_NFTOutputImmFeatures
func inv_Set2_NFTOutputImmFeatures(f NFTOutputImmFeatures, set FeatureSet, i int) bool {
	return g.ForallMap(set, func(t FeatureType, v Feature) bool {
		return g.Exists(0, i, func(k int) bool { return f[k].Type() == t })
	})
}

//gvc:contract target=(Features[T]).Set props=C12,C07,C06,C08,C09 modular pure
func c_Set_FoundryOutputFeatures(f FoundryOutputFeatures) (FeatureSet, error) { return featSetSpec(f) }

//gvc:invariant for=c_Set_FoundryOutputFeatures
func inv_Set_FoundryOutputFeatures(f FoundryOutputFeatures, set FeatureSet, i int) bool {
	return featSetOK(set) && len(set) == i && g.Forall(0, i, func(k int) bool { return g.SameIface(set[f[k].Type()], f[k]) })
}

//gvc:invariant for=c_Set_FoundryOutputFeatures
func inv_Set2_FoundryOutputFeatures(f FoundryOutputFeatures, set FeatureSet, i int) bool {
	return g.ForallMap(set, func(t FeatureType, v Feature) bool {
		return g.Exists(0, i, func(k int) bool { return f[k].Type() == t })
	})
}

//gvc:contract target=(Features[T]).Set props=C12,C07,C06,C08,C09 modular pure
func c_Set_FoundryOutputImmFeatures(f FoundryOutputImmFeatures) (FeatureSet, error) {
	return featSetSpec(f)
}

//gvc:invariant for=c_Set_FoundryOutputImmFeatures
func inv_Set_FoundryOutputImmFeatures(f FoundryOutputImmFeatures, set FeatureSet, i int) bool {
	return featSetOK(set) && len(set) == i && g.Forall(0, i, func(k int) bool { return g.SameIface(set[f[k].Type()], f[k]) })
}

//gvc:invariant for=c_Set_FoundryOutputImmFeatures
func inv_Set2_FoundryOutputImmFeatures(f FoundryOutputImmFeatures, set FeatureSet, i int) bool {
	return g.ForallMap(set, func(t FeatureType, v Feature) bool {
		return g.Exists(0, i, func(k int) bool { return f[k].Type() == t })
	})
}
