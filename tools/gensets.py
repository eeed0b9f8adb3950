#!/usr/bin/env python3
# Generates contracts/root/sets.go: the contract of Set for every instance of UnlockConditions and Features.
import os
uc = ["Basic","Account","Anchor","NFT","Foundry","Delegation"]
ft = ["BasicOutputFeatures","AccountOutputFeatures","AccountOutputImmFeatures","AnchorOutputFeatures","AnchorOutputImmFeatures","NFTOutputFeatures","NFTOutputImmFeatures","FoundryOutputFeatures","FoundryOutputImmFeatures"]
o='''// Code generated by tools/gensets.py.

package iotago

import (
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// ucSetOK: every entry of the set is filed under its own type.
func ucSetOK(f UnlockConditionSet) bool {
	return g.ForallMap(f, func(k UnlockConditionType, v UnlockCondition) bool { return v != nil && v.Type() == k })
}

func featSetOK(f FeatureSet) bool {
	return g.ForallMap(f, func(k FeatureType, v Feature) bool { return v != nil && v.Type() == k })
}
'''
def spec(fn, coll, el, st, ok, word):
    return '''
func %(fn)s[T %(el)s](f %(coll)s[T]) (%(st)s, error) {
	g.Assume(g.Forall(0, len(f), func(i int) bool { return !g.SameIface(f[i], nil) }), "%(word)s lists have no nil elements")
	set, err := f.Set()
	if err == nil {
		g.Ensures(set != nil, "there is a set")
		g.Ensures(%(ok)s(set), "entries are filed under their own type")
		g.Ensures(g.Forall(0, len(f), func(i int) bool { return g.SameIface(set[f[i].Type()], f[i]) }), "the set holds every element of the list")
		g.Ensures(len(set) == len(f), "the set has as many entries as the list")
	} else {
		g.Ensures(set == nil, "no set on error")
		g.Ensures(g.Exists(0, len(f), func(i int) bool { return g.Exists(0, i, func(k int) bool { return f[i].Type() == f[k].Type() }) }), "an error means that a type occurs twice")
	}
	return set, err
}
''' % dict(fn=fn,coll=coll,el=el,st=st,ok=ok,word=word)
o+=spec("ucSetSpec","UnlockConditions","UnlockCondition","UnlockConditionSet","ucSetOK","unlock condition")
o+=spec("featSetSpec","Features","Feature","FeatureSet","featSetOK","feature")
def inst(name,typ,st,coll,fn,ok):
    return '''
//gvc:contract target=(%(coll)s[T]).Set props=C12,C07,C06,C08,C09 modular pure
func c_Set_%(name)s(f %(typ)s) (%(st)s, error) { return %(fn)s(f) }

//gvc:invariant for=c_Set_%(name)s
func inv_Set_%(name)s(f %(typ)s, set %(st)s, i int) bool {
	return %(ok)s(set) && len(set) == i && g.Forall(0, i, func(k int) bool { return g.SameIface(set[f[k].Type()], f[k]) })
}

//gvc:invariant for=c_Set_%(name)s
func inv_Set2_%(name)s(f %(typ)s, set %(st)s, i int) bool {
	return g.ForallMap(set, func(t %(kt)s, v %(vt)s) bool { return g.Exists(0, i, func(k int) bool { return f[k].Type() == t }) })
}
''' % dict(name=name,typ=typ,st=st,coll=coll,fn=fn,ok=ok,kt="UnlockConditionType" if coll[0]=="U" else "FeatureType",vt="UnlockCondition" if coll[0]=="U" else "Feature")
for u in uc: o+=inst(u+"UC",u+"OutputUnlockConditions","UnlockConditionSet","UnlockConditions","ucSetSpec","ucSetOK")
for f in ft: o+=inst(f,f,"FeatureSet","Features","featSetSpec","featSetOK")
open(os.path.dirname(os.path.abspath(__file__))+"/../contracts/root/sets.go","w").write(o)
