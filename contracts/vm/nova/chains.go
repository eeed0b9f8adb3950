package nova

import (
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

func issuerUnlocked(p *vm.Params, o iotago.ChainOutputImmutable) bool {
	return vm.IsIssuerOnOutputUnlocked(o, p.WorkingSet.UnlockedAddrs) == nil
}

//gvc:contract target=nftSTVF props=C09 opaque=vm.IsIssuerOnOutputUnlocked
func c_nftSTVF_genesis(p *vm.Params, next *iotago.NFTOutput) {
	g.Requires(paramsOK(p) && next != nil)
	err := nftSTVF(p, nil, iotago.ChainTransitionTypeGenesis, next)
	g.Ensures((err == nil) == (next.NFTID == iotago.NFTID{} && issuerUnlocked(p, next)), "an NFT is created iff its identifier is empty and its issuer is unlocked")
}

//gvc:contract target=nftSTVF props=C09 opaque=(Features[T]).Equal
func c_nftSTVF_change(p *vm.Params, cur *iotago.NFTOutput, next *iotago.NFTOutput, id iotago.ChainID) {
	g.Requires(paramsOK(p) && next != nil && cur != nil)
	err := nftSTVF(p, &vm.ChainOutputWithIDs{ChainID: id, Output: cur}, iotago.ChainTransitionTypeStateChange, next)
	g.Ensures((err == nil) == cur.ImmutableFeatures.Equal(next.ImmutableFeatures), "an NFT changes iff it keeps its immutable features")
}

//gvc:contract target=nftSTVF props=C09
func c_nftSTVF_destroy(p *vm.Params, cur *iotago.NFTOutput, id iotago.ChainID) {
	g.Requires(paramsOK(p) && cur != nil)
	err := nftSTVF(p, &vm.ChainOutputWithIDs{ChainID: id, Output: cur}, iotago.ChainTransitionTypeDestroy, nil)
	g.Ensures((err == nil) == !p.WorkingSet.Tx.Capabilities.CannotDestroyNFTOutputs(), "an NFT is destroyed iff the transaction may destroy NFTs")
}

//gvc:contract target=anchorSTVF props=C09 opaque=vm.IsIssuerOnOutputUnlocked
func c_anchorSTVF_genesis(p *vm.Params, next *iotago.AnchorOutput) {
	g.Requires(paramsOK(p) && next != nil)
	err := anchorSTVF(p, nil, iotago.ChainTransitionTypeGenesis, next)
	g.Ensures((err == nil) == (next.AnchorID == iotago.AnchorID{} && issuerUnlocked(p, next)), "an anchor is created iff its identifier is empty and its issuer is unlocked")
}

func sameFeature(t iotago.FeatureType, a, b *iotago.AnchorOutput) bool {
	return iotago.FeatureUnchanged(t, a.FeatureSet(), b.FeatureSet()) == nil
}

//gvc:contract target=anchorSTVF props=C09 opaque=(Features[T]).Equal,FeatureUnchanged,iface:(Address).Bech32,iface:Equal(Address),(*AnchorOutput).StateController,(*AnchorOutput).GovernorAddress
func c_anchorSTVF_change(p *vm.Params, cur *iotago.AnchorOutput, next *iotago.AnchorOutput, id iotago.ChainID) {
	g.Requires(paramsOK(p) && next != nil && cur != nil && cur.StateIndex < 1<<32-1)
	g.Requires(cur.StateController() != nil && next.StateController() != nil && cur.GovernorAddress() != nil && next.GovernorAddress() != nil)
	err := anchorSTVF(p, &vm.ChainOutputWithIDs{ChainID: id, Output: cur}, iotago.ChainTransitionTypeStateChange, next)
	same := cur.ImmutableFeatures.Equal(next.ImmutableFeatures)
	if cur.StateIndex == next.StateIndex {
		g.Ensures((err == nil) == (same && cur.Amount == next.Amount && sameFeature(iotago.FeatureStateMetadata, cur, next)), "a governance transition keeps immutable features, state index, amount and state metadata")
	} else {
		g.Ensures((err == nil) == (same && g.N(cur.StateIndex).Add(g.K(1)).Eq(g.N(next.StateIndex)) && cur.StateController().Equal(next.StateController()) && cur.GovernorAddress().Equal(next.GovernorAddress()) && sameFeature(iotago.FeatureMetadata, cur, next)), "a state transition keeps immutable features, controllers and metadata and increases the state index by one")
	}
}

//gvc:contract target=anchorSTVF props=C09
func c_anchorSTVF_destroy(p *vm.Params, cur *iotago.AnchorOutput, id iotago.ChainID) {
	g.Requires(paramsOK(p) && cur != nil)
	err := anchorSTVF(p, &vm.ChainOutputWithIDs{ChainID: id, Output: cur}, iotago.ChainTransitionTypeDestroy, nil)
	g.Ensures((err == nil) == !p.WorkingSet.Tx.Capabilities.CannotDestroyAnchorOutputs(), "an anchor is destroyed iff the transaction may destroy anchors")
}

// inSum and outSum: the sums of a native token in the transaction.
func sumOf(s iotago.NativeTokenSum, id iotago.NativeTokenID) g.Int {
	if v := s[id]; v != nil {
		return g.Big(v)
	}
	return g.K(0)
}

func schemeOK(s *iotago.SimpleTokenScheme) bool {
	return s != nil && s.MintedTokens != nil && s.MeltedTokens != nil && s.MaximumSupply != nil
}

// minted, melted and supply of a token scheme.
func schemeChangeOK(cur, next *iotago.SimpleTokenScheme, in, out g.Int) bool {
	if !g.Big(cur.MaximumSupply).Eq(g.Big(next.MaximumSupply)) {
		return false
	}
	minted, melted := g.Big(next.MintedTokens).Sub(g.Big(cur.MintedTokens)), g.Big(next.MeltedTokens).Sub(g.Big(cur.MeltedTokens))
	zero := g.K(0)
	return zero.Le(minted) && zero.Le(melted) && out.Sub(in).Eq(minted.Sub(melted)) && (minted.Eq(zero) || melted.Eq(zero))
}

//gvc:contract target=foundrySTVF props=C05,C09 opaque=(Features[T]).Equal,(*FoundryOutput).FoundryID
func c_foundrySTVF_change(p *vm.Params, cur *iotago.FoundryOutput, next *iotago.FoundryOutput, cid iotago.ChainID, id iotago.FoundryID) {
	g.Requires(paramsOK(p) && cur != nil && next != nil)
	a, isA := cur.TokenScheme.(*iotago.SimpleTokenScheme)
	b, isB := next.TokenScheme.(*iotago.SimpleTokenScheme)
	g.Requires(isA && isB && schemeOK(a) && schemeOK(b))
	ida, ea := cur.FoundryID()
	idb, eb := next.FoundryID()
	g.Requires(ea == nil && eb == nil && ida == id && idb == id)
	in, out := p.WorkingSet.InNativeTokens, p.WorkingSet.OutNativeTokens
	g.Requires(sumOK(in, id) && sumOK(out, id))
	err := foundrySTVF(p, &vm.ChainOutputWithIDs{ChainID: cid, Output: cur}, iotago.ChainTransitionTypeStateChange, next)
	g.Ensures((err == nil) == (cur.ImmutableFeatures.Equal(next.ImmutableFeatures) && schemeChangeOK(a, b, sumOf(in, id), sumOf(out, id))), "a foundry changes iff it keeps its immutable features and maximum supply and what it records as newly minted or melted is the difference of its token between outputs and inputs")
}

//gvc:contract target=foundrySTVF props=C05,C09 opaque=(*FoundryOutput).FoundryID
func c_foundrySTVF_destroy(p *vm.Params, cur *iotago.FoundryOutput, cid iotago.ChainID, id iotago.FoundryID) {
	g.Requires(paramsOK(p) && cur != nil)
	a, isA := cur.TokenScheme.(*iotago.SimpleTokenScheme)
	g.Requires(isA && schemeOK(a))
	ida, ea := cur.FoundryID()
	g.Requires(ea == nil && ida == id)
	in, out := p.WorkingSet.InNativeTokens, p.WorkingSet.OutNativeTokens
	g.Requires(sumOK(in, id) && sumOK(out, id))
	err := foundrySTVF(p, &vm.ChainOutputWithIDs{ChainID: cid, Output: cur}, iotago.ChainTransitionTypeDestroy, nil)
	left := g.Big(a.MintedTokens).Sub(g.Big(a.MeltedTokens))
	g.Ensures((err == nil) == (!p.WorkingSet.Tx.Capabilities.CannotDestroyFoundryOutputs() && sumOf(in, id).Sub(sumOf(out, id)).Eq(left)), "a foundry is destroyed iff the transaction may destroy foundries and takes everything still circulating out of circulation")
}

// sumOK: the sum of a token has no nil amount.
func sumOK(s iotago.NativeTokenSum, id iotago.NativeTokenID) bool {
	v, has := s[id]
	return !has || v != nil
}

// accountOf: the account which owns a foundry.
func accountOf(f *iotago.FoundryOutput) (iotago.AccountID, bool) {
	a, is := f.Owner().(*iotago.AccountAddress)
	if !is || a == nil {
		return iotago.AccountID{}, false
	}
	return iotago.AccountID(*a), true
}

//gvc:contract target=foundrySTVF props=C05,C09 opaque=(*FoundryOutput).FoundryID,(*FoundryOutput).Owner,vm/nova.foundrySerialNumberValid
func c_foundrySTVF_genesis(p *vm.Params, next *iotago.FoundryOutput, id iotago.FoundryID) {
	g.Requires(paramsOK(p) && next != nil)
	a, isA := next.TokenScheme.(*iotago.SimpleTokenScheme)
	g.Requires(isA && schemeOK(a))
	ida, ea := next.FoundryID()
	acc, owned := accountOf(next)
	g.Requires(ea == nil && ida == id && owned)
	out := p.WorkingSet.OutNativeTokens
	g.Requires(sumOK(out, id))
	in, hasIn := p.WorkingSet.InChains[acc]
	outAcc, hasOut := p.WorkingSet.OutChains[acc]
	ok := hasIn && hasOut && g.Big(a.MeltedTokens).Eq(g.K(0)) && g.Big(a.MintedTokens).Eq(sumOf(out, id))
	if hasIn && hasOut {
		g.Requires(in != nil)
		x, isX := in.Output.(*iotago.AccountOutput)
		y, isY := outAcc.(*iotago.AccountOutput)
		g.Requires(isX && isY && x != nil && y != nil)
		ok = ok && foundrySerialNumberValid(p, next, x, y, id) == nil
	}
	err := foundrySTVF(p, nil, iotago.ChainTransitionTypeGenesis, next)
	g.Ensures((err == nil) == ok, "a foundry is created iff it records as minted what the transaction holds of its token, nothing as melted, and its account transitions in the transaction and opens its serial number")
}

// newBefore: the output is another new foundry of the same account.
func newFoundry(p *vm.Params, o iotago.Output, owner iotago.Address) (iotago.FoundryID, uint32, bool) {
	f, is := o.(*iotago.FoundryOutput)
	if !is {
		return iotago.FoundryID{}, 0, false
	}
	if !f.Owner().Equal(owner) {
		return iotago.FoundryID{}, 0, false
	}
	id, _ := f.FoundryID()
	if _, isNotNew := p.WorkingSet.InChains[id]; isNotNew {
		return iotago.FoundryID{}, 0, false
	}
	return id, f.SerialNumber, true
}

//gvc:contract target=foundrySerialNumberValid props=C08,C09 opaque=(*FoundryOutput).FoundryID,(*FoundryOutput).Owner,iface:Equal(Address)
func c_foundrySerialNumberValid(p *vm.Params, cur *iotago.FoundryOutput, in *iotago.AccountOutput, out *iotago.AccountOutput, id iotago.FoundryID) {
	g.Requires(paramsOK(p) && cur != nil && in != nil && out != nil && cur.Owner() != nil)
	outs := p.WorkingSet.Tx.Outputs
	g.Requires(g.Forall(0, len(outs), func(i int) bool {
		f, is := outs[i].(*iotago.FoundryOutput)
		if !is {
			return true
		}
		if f.Owner() == nil {
			return false
		}
		_, err := f.FoundryID()
		return err == nil
	}))
	err := foundrySerialNumberValid(p, cur, in, out, id)
	if err == nil {
		g.Ensures(in.FoundryCounter < cur.SerialNumber && cur.SerialNumber <= out.FoundryCounter, "a new foundry takes a serial number its account opened in the transaction")
		g.Ensures(g.Forall(0, len(outs), func(i int) bool {
			_, sn, is := newFoundry(p, outs[i], cur.Owner())
			return !is || sn < cur.SerialNumber || g.Exists(0, i+1, func(k int) bool {
				self, _, isNew := newFoundry(p, outs[k], cur.Owner())
				return isNew && self == id
			})
		}), "every new foundry of the account before this one has a smaller serial number")
	} else {
		g.Ensures(in.FoundryCounter >= cur.SerialNumber || cur.SerialNumber > out.FoundryCounter || g.Exists(0, len(outs), func(i int) bool {
			other, sn, is := newFoundry(p, outs[i], cur.Owner())
			return is && other != id && sn >= cur.SerialNumber
		}), "a serial number is refused only if it was not opened or another new foundry has a bigger one")
	}
}

//gvc:invariant for=c_foundrySerialNumberValid
func inv_foundrySerialNumberValid(vmParams *vm.Params, current *iotago.FoundryOutput, thisFoundryID iotago.FoundryID, i int) bool {
	return g.Forall(0, i, func(k int) bool {
		other, sn, is := newFoundry(vmParams, vmParams.WorkingSet.Tx.Outputs[k], current.Owner())
		return !is || other != thisFoundryID && sn < current.SerialNumber
	})
}
