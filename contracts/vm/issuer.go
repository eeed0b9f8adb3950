package vm

import (
	iotago "github.com/iotaledger/iota.go/v4"
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

func underlying(a iotago.Address) iotago.Address {
	if r, is := a.(*iotago.RestrictedAddress); is {
		return r.Address
	}
	return a
}

//gvc:contract target=IsIssuerOnOutputUnlocked props=C08,C09 opaque=iface:(Address).Key,iface:(ChainOutputImmutable).ImmutableFeatureSet
func c_IsIssuerOnOutputUnlocked(output iotago.ChainOutputImmutable, unlockedAddrs UnlockedAddresses) {
	g.Requires(output != nil)
	fs := output.ImmutableFeatureSet()
	g.Requires(g.ForallMap(fs, func(k iotago.FeatureType, v iotago.Feature) bool { return v != nil && v.Type() == k }))
	issuer := fs.Issuer()
	g.Requires(issuer == nil || issuer.Address != nil && underlying(issuer.Address) != nil)
	err := IsIssuerOnOutputUnlocked(output, unlockedAddrs)
	if issuer == nil {
		g.Ensures(err == nil, "an output without an issuer needs no issuer unlocked")
	} else {
		_, unlocked := unlockedAddrs[underlying(issuer.Address).Key()]
		g.Ensures((err == nil) == unlocked, "a new output may name an issuer iff the issuer's address is unlocked")
	}
}

//gvc:contract target=resolveUnderlyingAddress props=C06,C08,C09
func c_resolveUnderlyingAddress(a iotago.Address) {
	r := resolveUnderlyingAddress(a)
	g.Ensures(g.SameIface(r, underlying(a)), "a restricted address stands for the address in it, any other for itself")
}

//gvc:nudge
func nudge_IsIssuerOnOutputUnlocked(r *g.Rand, output iotago.ChainOutputImmutable, unlockedAddrs UnlockedAddresses) {
	is := output.ImmutableFeatureSet().Issuer()
	if is != nil && unlockedAddrs != nil && r.Intn(2) == 0 {
		a := underlying(is.Address)
		if r.Intn(4) == 0 {
			a = is.Address
		}
		unlockedAddrs[a.Key()] = &UnlockedAddress{Address: a}
	}
}
