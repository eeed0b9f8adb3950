package iotago

import (
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// versionsOK: the list holds the known versions once each, in ascending order.
func versionsOK(p *ProtocolEpochVersions) bool {
	v := p.versionsPerEpoch
	return p.knownVersions != nil &&
		g.Forall(0, len(v), func(i int) bool { return g.Forall(0, i, func(k int) bool { return v[k].Version < v[i].Version }) }) &&
		g.Forall(0, len(v), func(i int) bool {
			e, ok := p.knownVersions[v[i].Version]
			return ok && e == v[i].StartEpoch
		}) &&
		g.ForallMap(p.knownVersions, func(x Version, e EpochIndex) bool {
			return g.Exists(0, len(v), func(i int) bool { return v[i].Version == x })
		})
}

//gvc:gen
func gen_ProtocolEpochVersions(r *g.Rand) *ProtocolEpochVersions {
	p := NewProtocolEpochVersions()
	for i := r.Intn(6); i > 0; i-- {
		v, e := Version(r.Intn(8)), EpochIndex(r.Intn(10))
		if _, has := p.knownVersions[v]; !has {
			p.knownVersions[v] = e
			k := 0
			for k < len(p.versionsPerEpoch) && p.versionsPerEpoch[k].Version < v {
				k++
			}
			p.versionsPerEpoch = append(p.versionsPerEpoch[:k:k], append([]ProtocolEpochVersion{{v, e}}, p.versionsPerEpoch[k:]...)...)
		}
	}
	return p
}

//gvc:gen
func gen_Version(r *g.Rand) Version { return Version(r.Intn(9)) }

//gvc:contract target=NewProtocolEpochVersions props=C20 nopanic
func c_NewProtocolEpochVersions() {
	p := NewProtocolEpochVersions()
	g.Ensures(p != nil && len(p.versionsPerEpoch) == 0 && len(p.knownVersions) == 0 && versionsOK(p), "no versions are known at first")
}

//gvc:contract target=(*ProtocolEpochVersions).Add props=C20 nopanic
func c_ProtocolEpochVersions_Add(p *ProtocolEpochVersions, version Version, epoch EpochIndex, other Version) {
	g.Requires(p != nil && versionsOK(p))
	e0, ok0 := p.knownVersions[version]
	o0, okO0 := p.knownVersions[other]
	p.Add(version, epoch)
	e1, ok1 := p.knownVersions[version]
	o1, okO1 := p.knownVersions[other]
	n := p.versionsPerEpoch
	g.Ensures(g.Forall(0, len(n), func(i int) bool { return g.Forall(0, i, func(k int) bool { return n[k].Version < n[i].Version }) }), "the versions remain ordered and unique")
	g.Ensures(g.Forall(0, len(n), func(i int) bool {
		e, ok := p.knownVersions[n[i].Version]
		return ok && e == n[i].StartEpoch
	}), "the list agrees with the lookup table")
	g.Ensures(g.ForallMap(p.knownVersions, func(x Version, e EpochIndex) bool {
		return g.Exists(0, len(n), func(i int) bool { return n[i].Version == x })
	}), "every known version is listed")
	g.Ensures(ok1 && e1 == g.If(ok0, e0, epoch), "a new version starts at the given epoch, a known version keeps its start epoch")
	g.Ensures(other == version || okO1 == okO0 && o1 == o0, "other versions are unaffected")
}

//gvc:contract target=(*ProtocolEpochVersions).VersionForEpoch props=C20
func c_ProtocolEpochVersions_VersionForEpoch(p *ProtocolEpochVersions, epoch EpochIndex) {
	g.Requires(p != nil && versionsOK(p))
	r := p.VersionForEpoch(epoch)
	e, ok := p.knownVersions[r]
	g.Ensures(ok && e <= epoch, "the version in force is known and has started")
	g.Ensures(g.ForallMap(p.knownVersions, func(v Version, s EpochIndex) bool { return v <= r || s > epoch }), "no higher version has started")
}

//gvc:invariant for=c_ProtocolEpochVersions_VersionForEpoch,c_ProtocolEpochVersions_VersionForEpoch_total,c_EpochBasedProvider_VersionForSlot
func inv_VersionForEpoch(p *ProtocolEpochVersions, epoch EpochIndex, i int) bool {
	return i < len(p.versionsPerEpoch) && g.Forall(i+1, len(p.versionsPerEpoch), func(k int) bool { return p.versionsPerEpoch[k].StartEpoch > epoch })
}

//gvc:contract target=(*ProtocolEpochVersions).VersionForEpoch props=C20 nopanic
func c_ProtocolEpochVersions_VersionForEpoch_total(p *ProtocolEpochVersions, epoch EpochIndex) {
	g.Requires(p != nil && versionsOK(p))
	g.Requires(g.ExistsMap(p.knownVersions, func(v Version, s EpochIndex) bool { return s <= epoch }))
	r := p.VersionForEpoch(epoch)
	_, ok := p.knownVersions[r]
	g.Ensures(ok, "there is a version for every epoch from the first start epoch on")
}

//gvc:contract target=(*ProtocolEpochVersions).EpochForVersion props=C20 nopanic
func c_ProtocolEpochVersions_EpochForVersion(p *ProtocolEpochVersions, v Version) {
	g.Requires(p != nil && versionsOK(p))
	e, ok := p.EpochForVersion(v)
	n := p.versionsPerEpoch
	g.Ensures(ok == g.Exists(0, len(n), func(i int) bool { return n[i].Version == v }), "exactly the added versions are known")
	g.Ensures(g.Implies(ok, g.Exists(0, len(n), func(i int) bool { return n[i].Version == v && n[i].StartEpoch == e })), "the start epoch of a version")
}

//gvc:contract target=(*ProtocolEpochVersions).Slice props=C20 nopanic
func c_ProtocolEpochVersions_Slice(p *ProtocolEpochVersions) {
	g.Requires(p != nil && versionsOK(p))
	s := p.Slice()
	g.Ensures(len(s) == len(p.versionsPerEpoch) && g.Forall(0, len(s), func(i int) bool { return s[i] == p.versionsPerEpoch[i] }), "all versions in order")
}

//gvc:contract target=(*EpochBasedProvider).VersionForSlot props=C20 opaque=(*TimeProvider).EpochFromSlot
func c_EpochBasedProvider_VersionForSlot(e *EpochBasedProvider, slot SlotIndex) {
	g.Requires(e != nil && e.protocolVersions != nil && e.latestAPI != nil)
	want := e.protocolVersions.VersionForEpoch(e.latestAPI.TimeProvider().EpochFromSlot(slot))
	g.Ensures(e.VersionForSlot(slot) == want, "the version of a slot is that of the epoch containing it")
}

//gvc:contract target=(*EpochBasedProvider).EpochForVersion props=C20
func c_EpochBasedProvider_EpochForVersion(e *EpochBasedProvider, v Version) {
	g.Requires(e != nil && e.protocolVersions != nil)
	w, ok := e.protocolVersions.EpochForVersion(v)
	r, ok2 := e.EpochForVersion(v)
	g.Ensures(r == w && ok == ok2, "the start epoch the provider reports")
}

//gvc:gen
func gen_EpochBasedProvider(r *g.Rand) *EpochBasedProvider {
	e := NewEpochBasedProvider()
	e.protocolVersions = gen_ProtocolEpochVersions(r)
	if r.Intn(8) > 0 {
		e.latestAPI = gen_API(r)
		e.protocolVersions.Add(0, 0)
	}
	return e
}
