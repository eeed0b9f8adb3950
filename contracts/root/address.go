package iotago

import (
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

//gvc:contract target=(*RestrictedAddress).Equal props=C15,C06 modular pure
func c_RestrictedAddress_Equal(addr *RestrictedAddress, other Address) bool {
	g.Requires(addr != nil)
	r := addr.Equal(other)
	o, is := other.(*RestrictedAddress)
	if !is {
		g.Ensures(!r, "a restricted address equals only restricted addresses")
	} else {
		if string(addr.AllowedCapabilities) != string(o.AllowedCapabilities) {
			g.Ensures(!r, "equal restricted addresses have the same capabilities")
		}
	}
	return r
}

//gvc:contract target=(*MultiAddress).Equal props=C21,C06 modular pure
func c_MultiAddress_Equal(addr *MultiAddress, other Address) bool {
	g.Requires(addr != nil)
	r := addr.Equal(other)
	o, is := other.(*MultiAddress)
	if !is {
		g.Ensures(!r, "a multi address equals only multi addresses")
	} else {
		g.Ensures(g.Implies(r, addr.Threshold == o.Threshold && len(addr.Addresses) == len(o.Addresses)), "equal multi addresses have the same threshold and size")
		g.Ensures(g.Implies(r, g.Forall(0, len(addr.Addresses), func(i int) bool { return addr.Addresses[i].Weight == o.Addresses[i].Weight })), "equal multi addresses have the same weights")
	}
	return r
}

//gvc:invariant for=c_MultiAddress_Equal
func inv_MultiAddress_Equal(addr *MultiAddress, otherAddr *MultiAddress, i int) bool {
	return g.Forall(0, i, func(k int) bool { return addr.Addresses[k].Weight == otherAddr.Addresses[k].Weight })
}

//gvc:contract target=(*RestrictedAddress).ID props=C16,C06 modular pure
func c_RestrictedAddress_ID(addr *RestrictedAddress) []byte {
	g.Requires(addr != nil)
	r := addr.ID()
	g.Ensures(len(r) > 0 && r[0] == byte(AddressRestricted), "the identifier starts with the address type")
	return r
}

//gvc:contract target=(*MultiAddress).ID props=C16,C21 modular pure
func c_MultiAddress_ID(addr *MultiAddress) []byte {
	g.Requires(addr != nil)
	r := addr.ID()
	g.Ensures(len(r) == 33 && r[0] == byte(AddressMulti), "the identifier is the address type followed by a hash")
	return r
}
