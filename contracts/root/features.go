package iotago

import (
	"bytes"

	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

func featsEqual[T Feature](f, o Features[T]) bool {
	return len(f) == len(o) && g.Forall(0, len(f), func(i int) bool { return f[i].Equal(o[i]) })
}

func featsNonNil[T Feature](f Features[T]) bool {
	return g.Forall(0, len(f), func(i int) bool { return !g.SameIface(f[i], nil) })
}

//gvc:contract target=(Features[T]).Equal props=C08,C09 opaque=iface:Equal(Feature)
func c_FeaturesEqual_Account(f AccountOutputImmFeatures, o AccountOutputImmFeatures) {
	g.Requires(featsNonNil(f) && featsNonNil(o))
	g.Ensures(f.Equal(o) == featsEqual(f, o), "feature lists are equal iff they have the same length and equal elements")
}

//gvc:contract target=(Features[T]).Equal props=C08,C09 opaque=iface:Equal(Feature)
func c_FeaturesEqual_Anchor(f AnchorOutputImmFeatures, o AnchorOutputImmFeatures) {
	g.Requires(featsNonNil(f) && featsNonNil(o))
	g.Ensures(f.Equal(o) == featsEqual(f, o), "feature lists are equal iff they have the same length and equal elements")
}

//gvc:contract target=(Features[T]).Equal props=C08,C09 opaque=iface:Equal(Feature)
func c_FeaturesEqual_NFT(f NFTOutputImmFeatures, o NFTOutputImmFeatures) {
	g.Requires(featsNonNil(f) && featsNonNil(o))
	g.Ensures(f.Equal(o) == featsEqual(f, o), "feature lists are equal iff they have the same length and equal elements")
}

//gvc:contract target=(Features[T]).Equal props=C08,C09 opaque=iface:Equal(Feature)
func c_FeaturesEqual_Foundry(f FoundryOutputImmFeatures, o FoundryOutputImmFeatures) {
	g.Requires(featsNonNil(f) && featsNonNil(o))
	g.Ensures(f.Equal(o) == featsEqual(f, o), "feature lists are equal iff they have the same length and equal elements")
}

//gvc:nudge
func nudge_FeaturesEqual_Account(r *g.Rand, f AccountOutputImmFeatures, o AccountOutputImmFeatures) {
	copy(o, f)
}

//gvc:nudge
func nudge_FeaturesEqual_Anchor(r *g.Rand, f AnchorOutputImmFeatures, o AnchorOutputImmFeatures) {
	copy(o, f)
}

//gvc:nudge
func nudge_FeaturesEqual_NFT(r *g.Rand, f NFTOutputImmFeatures, o NFTOutputImmFeatures) { copy(o, f) }

//gvc:nudge
func nudge_FeaturesEqual_Foundry(r *g.Rand, f FoundryOutputImmFeatures, o FoundryOutputImmFeatures) {
	copy(o, f)
}

//gvc:contract target=(*IssuerFeature).Equal props=C08,C09
func c_IssuerFeature_Equal(s *IssuerFeature, o Feature) {
	g.Requires(s != nil && o != nil && addrOK(s.Address))
	x, is := o.(*IssuerFeature)
	g.Requires(!is || x != nil && addrOK(x.Address))
	r := s.Equal(o)
	g.Ensures(r == (is && s.Address.Equal(x.Address)), "issuer features are equal iff they name the same address")
}

//gvc:contract target=(*StakingFeature).Equal props=C08
func c_StakingFeature_Equal(s *StakingFeature, o Feature) {
	g.Requires(s != nil && o != nil)
	x, is := o.(*StakingFeature)
	g.Requires(!is || x != nil)
	r := s.Equal(o)
	g.Ensures(r == (is && *s == *x), "staking features are equal iff all their fields are")
}

//gvc:nudge
func nudge_StakingFeature_Equal(r *g.Rand, s *StakingFeature, o Feature) {
	if x, is := o.(*StakingFeature); is {
		*x = *s
		switch r.Intn(8) {
		case 0:
			x.StakedAmount++
		case 1:
			x.FixedCost++
		case 2:
			x.StartEpoch++
		case 3:
			x.EndEpoch++
		}
	}
}

//gvc:contract target=(*NativeTokenFeature).Equal props=C09
func c_NativeTokenFeature_Equal(s *NativeTokenFeature, o Feature) {
	g.Requires(s != nil && o != nil && s.Amount != nil)
	x, is := o.(*NativeTokenFeature)
	g.Requires(!is || x != nil && x.Amount != nil)
	r := s.Equal(o)
	g.Ensures(r == (is && s.ID == x.ID && s.Amount.Cmp(x.Amount) == 0), "native token features are equal iff token and amount are")
}

func entriesIncluded(a, b MetadataFeatureEntries) bool {
	return g.ForallMap(a, func(k MetadataFeatureEntriesKey, v MetadataFeatureEntriesValue) bool {
		w, has := b[k]
		return has && bytes.Equal(v, w)
	})
}

//gvc:contract target=MetadataFeature.Equal props=C08,C09
func c_MetadataFeature_Equal(s MetadataFeature, o Feature) {
	g.Requires(o != nil)
	x, is := o.(*MetadataFeature)
	g.Requires(!is || x != nil)
	r := s.Equal(o)
	if is {
		g.Ensures(r == (len(s.Entries) == len(x.Entries) && entriesIncluded(s.Entries, x.Entries)), "metadata is equal iff it has the same entries")
	} else {
		g.Ensures(!r, "features of different types differ")
	}
}

//gvc:invariant for=c_MetadataFeature_Equal
func inv_MetadataFeature_Equal(s MetadataFeature, x *MetadataFeature) bool {
	return g.VisitedForall(s.Entries, func(k MetadataFeatureEntriesKey, v MetadataFeatureEntriesValue) bool {
		w, has := x.Entries[k]
		return has && bytes.Equal(v, w)
	})
}

//gvc:contract target=FeatureUnchanged props=C09 opaque=iface:Equal(Feature)
func c_FeatureUnchanged(t FeatureType, a FeatureSet, b FeatureSet) {
	g.Requires(featSetOK(a) && featSetOK(b))
	x, inA := a[t]
	y, inB := b[t]
	err := FeatureUnchanged(t, a, b)
	if inA && inB {
		g.Ensures((err == nil) == x.Equal(y), "a feature in both sets is unchanged iff it is equal")
	} else {
		g.Ensures((err == nil) == (inA == inB), "a feature is neither added nor removed")
	}
}

//gvc:invariant for=c_FeaturesEqual_Account
func inv_FeaturesEqual_Account(f AccountOutputImmFeatures, other AccountOutputImmFeatures, i int) bool {
	return g.Forall(0, i, func(k int) bool { return f[k].Equal(other[k]) })
}

//gvc:invariant for=c_FeaturesEqual_Anchor
func inv_FeaturesEqual_Anchor(f AnchorOutputImmFeatures, other AnchorOutputImmFeatures, i int) bool {
	return g.Forall(0, i, func(k int) bool { return f[k].Equal(other[k]) })
}

//gvc:invariant for=c_FeaturesEqual_NFT
func inv_FeaturesEqual_NFT(f NFTOutputImmFeatures, other NFTOutputImmFeatures, i int) bool {
	return g.Forall(0, i, func(k int) bool { return f[k].Equal(other[k]) })
}

//gvc:invariant for=c_FeaturesEqual_Foundry
func inv_FeaturesEqual_Foundry(f FoundryOutputImmFeatures, other FoundryOutputImmFeatures, i int) bool {
	return g.Forall(0, i, func(k int) bool { return f[k].Equal(other[k]) })
}
