package iotago

import (
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// specBit: bit n of the mask.
func specBit(bm []byte, n uint) bool {
	if uint(len(bm)) <= n/8 {
		return false
	}
	return g.Bit(g.N(bm[n/8]), n%8)
}

//gvc:contract target=BitMaskHasBit props=C15 nopanic
func c_BitMaskHasBit(bm []byte, bit uint) {
	g.Ensures(BitMaskHasBit(bm, bit) == specBit(bm, bit), "the bit at its position is read, bits beyond the mask are unset")
}

//gvc:contract target=BitMaskSetBit props=C15 nopanic
func c_BitMaskSetBit(bm []byte, bit uint, other uint) {
	g.Requires(bit < 1<<20)
	g.NativeLimit(bit < 300 && other < 300)
	before := specBit(bm, other)
	n := len(bm)
	r := BitMaskSetBit(bm, bit)
	g.Ensures(specBit(r, bit), "the bit is set")
	g.Ensures(other == bit || specBit(r, other) == before, "every other bit is unchanged")
	g.Ensures(g.If(uint(n) > bit/8, len(r) == n, uint(len(r)) == bit/8+1), "the mask grows only as far as needed")
}

//gvc:invariant for=c_BitMaskSetBit
func inv_BitMaskSetBit(bm []byte, newBitmask []byte, byteIndex uint, other uint) bool {
	return len(newBitmask) >= len(bm) && (len(newBitmask) == len(bm) || uint(len(newBitmask)) <= byteIndex+1) && (uint(other/8) >= uint(len(bm)) || newBitmask[other/8] == bm[other/8]) &&
		g.Forall(len(bm), len(newBitmask), func(i int) bool { return newBitmask[i] == 0 })
}

//gvc:contract target=BitMaskNonTrailingZeroBytesValidatorFunc props=C15 nopanic
func c_BitMaskNonTrailingZeroBytes(bm []byte) {
	err := BitMaskNonTrailingZeroBytesValidatorFunc(bm)
	ok := true
	if len(bm) > 0 {
		ok = bm[len(bm)-1] != 0
	}
	g.Ensures((err == nil) == ok, "exactly the masks with a trailing zero byte are rejected")
}

//gvc:contract target=AddressCapabilitiesBitMaskWithCapabilities props=C15 nopanic split=bits:0..511
func c_AddressCapabilitiesWith(bits int) {
	g.Requires(bits >= 0 && bits < 512)
	nt, mana, tl, exp, sdr, acc, anc, nft, del := bits&1 != 0, bits&2 != 0, bits&4 != 0, bits&8 != 0, bits&16 != 0, bits&32 != 0, bits&64 != 0, bits&128 != 0, bits&256 != 0
	m := AddressCapabilitiesBitMaskWithCapabilities(WithAddressCanReceiveNativeTokens(nt), WithAddressCanReceiveMana(mana), WithAddressCanReceiveOutputsWithTimelockUnlockCondition(tl), WithAddressCanReceiveOutputsWithExpirationUnlockCondition(exp), WithAddressCanReceiveOutputsWithStorageDepositReturnUnlockCondition(sdr), WithAddressCanReceiveAccountOutputs(acc), WithAddressCanReceiveAnchorOutputs(anc), WithAddressCanReceiveNFTOutputs(nft), WithAddressCanReceiveDelegationOutputs(del))
	g.Ensures(m.CannotReceiveNativeTokens() == !nt, "native tokens")
	g.Ensures(m.CannotReceiveMana() == !mana, "mana")
	g.Ensures(m.CannotReceiveOutputsWithTimelockUnlockCondition() == !tl, "timelock")
	g.Ensures(m.CannotReceiveOutputsWithExpirationUnlockCondition() == !exp, "expiration")
	g.Ensures(m.CannotReceiveOutputsWithStorageDepositReturnUnlockCondition() == !sdr, "storage deposit return")
	g.Ensures(m.CannotReceiveAccountOutputs() == !acc, "accounts")
	g.Ensures(m.CannotReceiveAnchorOutputs() == !anc, "anchors")
	g.Ensures(m.CannotReceiveNFTOutputs() == !nft, "NFTs")
	g.Ensures(m.CannotReceiveDelegationOutputs() == !del, "delegations")
	g.Ensures(BitMaskNonTrailingZeroBytesValidatorFunc(m) == nil, "no trailing zero byte")
}

//gvc:contract target=AddressCapabilitiesBitMask.CannotReceiveMana props=C15 nopanic
func c_AddressCapabilities(m AddressCapabilitiesBitMask, a *RestrictedAddress) {
	g.Ensures(m.CannotReceiveNativeTokens() == !specBit(m, 0), "native tokens are bit 0")
	g.Ensures(m.CannotReceiveMana() == !specBit(m, 1), "mana is bit 1")
	g.Ensures(m.CannotReceiveOutputsWithTimelockUnlockCondition() == !specBit(m, 2), "timelocks are bit 2")
	g.Ensures(m.CannotReceiveOutputsWithExpirationUnlockCondition() == !specBit(m, 3), "expirations are bit 3")
	g.Ensures(m.CannotReceiveOutputsWithStorageDepositReturnUnlockCondition() == !specBit(m, 4), "storage deposit returns are bit 4")
	g.Ensures(m.CannotReceiveAccountOutputs() == !specBit(m, 5), "accounts are bit 5")
	g.Ensures(m.CannotReceiveAnchorOutputs() == !specBit(m, 6), "anchors are bit 6")
	g.Ensures(m.CannotReceiveNFTOutputs() == !specBit(m, 7), "NFTs are bit 7")
	g.Ensures(m.CannotReceiveDelegationOutputs() == !specBit(m, 8), "delegations are bit 8")
	g.Requires(a != nil)
	x := a.AllowedCapabilities
	g.Ensures(a.CannotReceiveNativeTokens() == !specBit(x, 0) && a.CannotReceiveMana() == !specBit(x, 1) && a.CannotReceiveOutputsWithTimelockUnlockCondition() == !specBit(x, 2), "restricted address: native tokens, mana, timelocks")
	g.Ensures(a.CannotReceiveOutputsWithExpirationUnlockCondition() == !specBit(x, 3) && a.CannotReceiveOutputsWithStorageDepositReturnUnlockCondition() == !specBit(x, 4) && a.CannotReceiveAccountOutputs() == !specBit(x, 5), "restricted address: expirations, storage deposit returns, accounts")
	g.Ensures(a.CannotReceiveAnchorOutputs() == !specBit(x, 6) && a.CannotReceiveNFTOutputs() == !specBit(x, 7) && a.CannotReceiveDelegationOutputs() == !specBit(x, 8), "restricted address: anchors, NFTs, delegations")
}

//gvc:contract target=TransactionCapabilitiesBitMaskWithCapabilities props=C15 nopanic split=bits:0..63
func c_TransactionCapabilitiesWith(bits int) {
	g.Requires(bits >= 0 && bits < 64)
	nt, mana, acc, anc, fou, nft := bits&1 != 0, bits&2 != 0, bits&4 != 0, bits&8 != 0, bits&16 != 0, bits&32 != 0
	m := TransactionCapabilitiesBitMaskWithCapabilities(WithTransactionCanBurnNativeTokens(nt), WithTransactionCanBurnMana(mana), WithTransactionCanDestroyAccountOutputs(acc), WithTransactionCanDestroyAnchorOutputs(anc), WithTransactionCanDestroyFoundryOutputs(fou), WithTransactionCanDestroyNFTOutputs(nft))
	g.Ensures(m.CannotBurnNativeTokens() == !nt, "native tokens")
	g.Ensures(m.CannotBurnMana() == !mana, "mana")
	g.Ensures(m.CannotDestroyAccountOutputs() == !acc, "accounts")
	g.Ensures(m.CannotDestroyAnchorOutputs() == !anc, "anchors")
	g.Ensures(m.CannotDestroyFoundryOutputs() == !fou, "foundries")
	g.Ensures(m.CannotDestroyNFTOutputs() == !nft, "NFTs")
	g.Ensures(BitMaskNonTrailingZeroBytesValidatorFunc(m) == nil, "no trailing zero byte")
}

//gvc:contract target=TransactionCapabilitiesBitMask.CannotBurnMana props=C15 nopanic
func c_TransactionCapabilities(m TransactionCapabilitiesBitMask) {
	g.Ensures(m.CannotBurnNativeTokens() == !specBit(m, 0) && m.CannotBurnMana() == !specBit(m, 1), "burning is bits 0 and 1")
	g.Ensures(m.CannotDestroyAccountOutputs() == !specBit(m, 2) && m.CannotDestroyAnchorOutputs() == !specBit(m, 3), "destroying accounts and anchors is bits 2 and 3")
	g.Ensures(m.CannotDestroyFoundryOutputs() == !specBit(m, 4) && m.CannotDestroyNFTOutputs() == !specBit(m, 5), "destroying foundries and NFTs is bits 4 and 5")
}

// specAllowed: the address may own an output with the content of o.
func specAllowed(o Output, a Address) bool {
	uc, f := o.UnlockConditionSet(), o.FeatureSet()
	switch x := a.(type) {
	case *RestrictedAddress:
		m := x.AllowedCapabilities
		return (specBit(m, 0) || f.NativeToken() == nil) && (specBit(m, 1) || o.StoredMana() == 0) && (specBit(m, 2) || uc.Timelock() == nil) && (specBit(m, 3) || uc.Expiration() == nil) && (specBit(m, 4) || uc.StorageDepositReturn() == nil) &&
			(specBit(m, 5) || o.Type() != OutputAccount) && (specBit(m, 6) || o.Type() != OutputAnchor) && (specBit(m, 7) || o.Type() != OutputNFT) && (specBit(m, 8) || o.Type() != OutputDelegation)
	case *ImplicitAccountCreationAddress:
		return uc.Timelock() == nil && uc.Expiration() == nil && uc.StorageDepositReturn() == nil && o.Type() != OutputAccount && o.Type() != OutputAnchor && o.Type() != OutputNFT && o.Type() != OutputDelegation
	}
	return true
}

func specAllAllowed(o Output) bool {
	uc := o.UnlockConditionSet()
	if c := uc.Address(); c != nil && !specAllowed(o, c.Address) {
		return false
	}
	if c := uc.StateControllerAddress(); c != nil && !specAllowed(o, c.Address) {
		return false
	}
	if c := uc.GovernorAddress(); c != nil && !specAllowed(o, c.Address) {
		return false
	}
	if c := uc.Expiration(); c != nil && !specAllowed(o, c.ReturnAddress) {
		return false
	}
	return true
}

//gvc:contract target=OutputsSyntacticalAddressRestrictions props=C15,C12 opaque=iface:(Output).UnlockConditionSet,iface:(Output).FeatureSet
func c_OutputsSyntacticalAddressRestrictions(index int, o Output) {
	g.Requires(o != nil)
	err := OutputsSyntacticalAddressRestrictions()(index, o)
	g.Ensures((err == nil) == specAllAllowed(o), "an output is accepted iff every address of it allows all of its content")
}
