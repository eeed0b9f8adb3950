package iotago

import (
	"bytes"
	"context"

	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// plainAddress: an address which may be part of a multi address.
func plainAddress(a Address) bool {
	switch a.(type) {
	case *Ed25519Address, *AccountAddress, *NFTAddress, *AnchorAddress:
		return true
	}

	return false
}

func weightsOf(l AddressesWithWeight, n int) g.Int {
	return g.Sum(0, n, func(i int) g.Int { return g.N(l[i].Weight) })
}

func weightedNonNil(l AddressesWithWeight) bool {
	return g.Forall(0, len(l), func(i int) bool { return l[i] != nil && l[i].Address != nil })
}

//gvc:contract target=init props=C21 stable
func c_multiAddressValidator(ctx context.Context, a MultiAddress) {
	// at most 10 addresses pass the array rules; 257 is what 16 bits can hold.
	g.Requires(weightedNonNil(a.Addresses) && len(a.Addresses) <= 257)
	err := multiAddressValidatorFunc(ctx, a)
	l := a.Addresses
	if err == nil {
		g.Ensures(g.Forall(0, len(l), func(i int) bool { return plainAddress(l[i].Address) }), "the parts of a multi address are plain addresses")
		g.Ensures(g.Forall(0, len(l), func(i int) bool { return l[i].Weight >= 1 }), "every part of a multi address has a weight")
		g.Ensures(a.Threshold >= 1 && g.N(a.Threshold).Le(weightsOf(l, len(l))), "the threshold lies between one and the weight of all parts together")
	} else {
		g.Ensures(g.Exists(0, len(l), func(i int) bool { return !plainAddress(l[i].Address) || l[i].Weight == 0 }) || a.Threshold == 0 || weightsOf(l, len(l)).Lt(g.N(a.Threshold)), "no other multi addresses are rejected")
	}
}

//gvc:invariant for=c_multiAddressValidator
func inv_multiAddressValidator(a MultiAddress, i int) bool {
	return g.Forall(0, i, func(k int) bool { return plainAddress(a.Addresses[k].Address) && a.Addresses[k].Weight >= 1 })
}

//gvc:invariant for=c_multiAddressValidator
func inv_multiAddressWeight(a MultiAddress, cumulativeWeight uint16, i int) bool {
	return g.N(cumulativeWeight).Eq(weightsOf(a.Addresses, i)) && int(cumulativeWeight) <= 255*i
}

//gvc:contract target=LexicalOrderAndUniquenessValidator props=C21 stable opaque=(*AddressWithWeight).Compare
func c_AddressWithWeightOrder(l AddressesWithWeight) {
	g.Requires(weightedNonNil(l))
	g.Requires(g.Forall(1, len(l), func(i int) bool { return l[i-1].Compare(l[i]) >= -1 && l[i-1].Compare(l[i]) <= 1 }))
	err := SliceValidator(l, LexicalOrderAndUniquenessValidator[*AddressWithWeight]())
	g.Ensures((err == nil) == g.Forall(1, len(l), func(i int) bool { return l[i-1].Compare(l[i]) < 0 }), "the parts of a multi address are accepted iff they are strictly ascending")
}

//gvc:invariant for=c_AddressWithWeightOrder
func inv_AddressWithWeightOrder(l AddressesWithWeight, prev **AddressWithWeight, i int) bool {
	return g.Forall(1, i, func(k int) bool { return l[k-1].Compare(l[k]) < 0 }) && (i == 0) == (prev == nil) && (i == 0 || *prev == l[i-1])
}

//gvc:contract target=(*AddressWithWeight).Compare props=C21 stable opaque=iface:(Address).ID
func c_AddressWithWeight_Compare(a *AddressWithWeight, b *AddressWithWeight) {
	g.Requires(a != nil && b != nil && a.Address != nil && b.Address != nil)
	r := a.Compare(b)
	x, y := string(a.Address.ID()), string(b.Address.ID())
	g.Ensures((r < 0) == g.StrLess(x, y) && (r == 0) == (x == y) && r >= -1 && r <= 1, "the parts of a multi address are ordered by their identity")
}

//gvc:contract target=NewMultiAddress props=C21
func c_NewMultiAddress(l AddressesWithWeight, t uint16) {
	a := NewMultiAddress(l, t)
	g.Ensures(a.Threshold == t && len(a.Addresses) == len(l) && g.Forall(0, len(l), func(i int) bool { return a.Addresses[i] == l[i] }), "a multi address has the parts and the threshold it is made of")
}

//gvc:contract target=init props=C15,C21 stable opaque=BitMaskNonTrailingZeroBytesValidatorFunc
func c_restrictedAddressValidator(ctx context.Context, a RestrictedAddress) {
	g.Requires(a.Address != nil)
	err := restrictedAddressValidatorFunc(ctx, a)
	if err == nil {
		_, multi := a.Address.(*MultiAddress)
		g.Ensures(plainAddress(a.Address) || multi, "a restricted address holds a plain or a multi address")
		g.Ensures(BitMaskNonTrailingZeroBytesValidatorFunc(a.AllowedCapabilities) == nil, "the mask of a restricted address has no trailing zero bytes")
	}
}

//gvc:contract target=(*MultiAddress).Equal props=C21 stable opaque=iface:(Address).ID
func c_MultiAddress_Equal_full(a *MultiAddress, o Address) {
	g.Requires(a != nil && o != nil && weightedNonNil(a.Addresses))
	b, is := o.(*MultiAddress)
	g.Requires(!is || (b != nil && weightedNonNil(b.Addresses)))
	r := a.Equal(o)
	if !is {
		g.Ensures(!r, "no other address is equal to a multi address")

		return
	}
	g.Ensures(r == (len(a.Addresses) == len(b.Addresses) && a.Threshold == b.Threshold && g.Forall(0, len(a.Addresses), func(i int) bool {
		return i >= len(b.Addresses) || bytes.Equal(a.Addresses[i].Address.ID(), b.Addresses[i].Address.ID()) && a.Addresses[i].Weight == b.Addresses[i].Weight
	})), "multi addresses are equal iff their parts, weights and thresholds are")
}

//gvc:invariant for=c_MultiAddress_Equal_full
func inv_MultiAddress_Equal_full(addr *MultiAddress, otherAddr *MultiAddress, i int) bool {
	return g.Forall(0, i, func(k int) bool {
		return bytes.Equal(addr.Addresses[k].Address.ID(), otherAddr.Addresses[k].Address.ID()) && addr.Addresses[k].Weight == otherAddr.Addresses[k].Weight
	})
}
