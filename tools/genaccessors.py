#!/usr/bin/env python3
# generates contracts/root/accessors.go: the accessors of outputs, features, unlock conditions and addresses.
o=['''// Code generated by tools/genaccessors.py.

package iotago

import (
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// ucListed: the set holds exactly the conditions of the list.
func ucListed[T UnlockCondition](f []T, set UnlockConditionSet) bool {
	return len(set) == len(f) && g.Forall(0, len(f), func(i int) bool { return g.SameIface(set[f[i].Type()], f[i]) })
}

func featListed[T Feature](f []T, set FeatureSet) bool {
	return len(set) == len(f) && g.Forall(0, len(f), func(i int) bool { return g.SameIface(set[f[i].Type()], f[i]) })
}
''']
def c(name,target,props,params,body,flags=''):
    o.append(f"//gvc:contract target={target} props={props} {flags}".rstrip()+f"\nfunc {name}({params}) {{\n"+"".join("\t"+l+"\n" for l in body)+"}\n")
kinds={'Basic':(1,1,0),'Account':(1,1,1),'Anchor':(1,1,1),'Foundry':(0,1,1),'NFT':(1,1,1),'Delegation':(0,0,0)}
for k,(mana,feats,imm) in kinds.items():
    t=f'{k}Output'
    rq="g.Requires(o != nil)"
    c(f'c_{t}_BaseTokenAmount',f'(*{t}).BaseTokenAmount','C03,C05,C11',f'o *{t}',[rq,'g.Ensures(o.BaseTokenAmount() == o.Amount, "the amount of an output is what its field says")'],'nopanic')
    c(f'c_{t}_StoredMana',f'(*{t}).StoredMana','C04,C22',f'o *{t}',[rq,f'g.Ensures(o.StoredMana() == {"o.Mana" if mana else "0"}, "the stored mana of an output is what its field says")'],'nopanic')
    c(f'c_{t}_Type',f'(*{t}).Type','C03,C12,C24',f'o *{t}',[rq,f'g.Ensures(o.Type() == Output{k}, "the output kind")'],'nopanic')
    nn='g.Assume(g.Forall(0, len(o.%s), func(i int) bool { return !g.SameIface(o.%s[i], nil) }), "lists have no nil elements")'
    c(f'c_{t}_UnlockConditionSet',f'(*{t}).UnlockConditionSet','C03,C06,C07,C12',f'o *{t}',[rq,nn%('UnlockConditions','UnlockConditions'),'g.Ensures(ucListed(o.UnlockConditions, o.UnlockConditionSet()), "the set of unlock conditions is the list")'])
    if feats:
        c(f'c_{t}_FeatureSet',f'(*{t}).FeatureSet','C05,C08,C09,C12',f'o *{t}',[rq,nn%('Features','Features'),'g.Ensures(featListed(o.Features, o.FeatureSet()), "the set of features is the list")'])
    elif k=='Delegation':
        c(f'c_{t}_FeatureSet',f'(*{t}).FeatureSet','C05,C10',f'o *{t}',[rq,'g.Ensures(len(o.FeatureSet()) == 0, "a delegation has no features")'],'nopanic')
    if imm:
        c(f'c_{t}_ImmutableFeatureSet',f'(*{t}).ImmutableFeatureSet','C08,C09,C12',f'o *{t}',[rq,nn%('ImmutableFeatures','ImmutableFeatures'),'g.Ensures(featListed(o.ImmutableFeatures, o.ImmutableFeatureSet()), "the set of immutable features is the list")'])
    if k in('Account','Anchor','NFT','Delegation'):
        f=k+'ID'
        c(f'c_{t}_ChainID',f'(*{t}).ChainID','C08' if k=='Account' else 'C10' if k=='Delegation' else 'C09',f'o *{t}',[rq,f'id, is := o.ChainID().({f})',f'g.Ensures(is && id == o.{f}, "the chain of an output is named by its identifier")'],'nopanic')
feats={'SenderFeature':'Sender','Issuer':'Issuer','Metadata':'Metadata','StateMetadata':'StateMetadata','Tag':'Tag','NativeToken':'NativeToken','BlockIssuer':'BlockIssuer','Staking':'Staking'}
pr={'NativeToken':'C05','BlockIssuer':'C08','Staking':'C08','Issuer':'C09'}
for fn,ty in feats.items():
    p=pr.get(ty,'C09,C12')
    c(f'c_FeatureSet_{fn}',f'FeatureSet.{fn}',p,'f FeatureSet',['g.Requires(featSetOK(f))',f'r := f.{fn}()',f'e, has := f[Feature{ty}]','g.Ensures((r != nil) == has, "a feature is found if and only if the set holds it")',f'if has && !g.SameIface(e, nil) {{',f'\tt, is := e.(*{ty}Feature)','\tg.Ensures(is && t == r, "the feature found is the one in the set")','}'])
    c(f'c_{ty}Feature_Type',f'(*{ty}Feature).Type',p,f'f *{ty}Feature',['g.Requires(f != nil)',f'g.Ensures(f.Type() == Feature{ty}, "the feature type")'],'nopanic')
ucs={'StorageDepositReturn':('StorageDepositReturn','StorageDepositReturn','C03'),'Expiration':('Expiration','Expiration','C07'),'Timelock':('Timelock','Timelock','C07'),'Address':('Address','Address','C06,C07'),'ImmutableAccount':('ImmutableAccount','ImmutableAccount','C06,C09'),'GovernorAddress':('GovernorAddress','GovernorAddress','C06,C09'),'StateControllerAddress':('StateControllerAddress','StateControllerAddress','C06,C09')}
for fn,(ty,kc,p) in ucs.items():
    c(f'c_UnlockConditionSet_get{fn}',f'UnlockConditionSet.{fn}',p,'f UnlockConditionSet',['g.Requires(ucSetOK(f))',f'r := f.{fn}()',f'e, has := f[UnlockCondition{kc}]','g.Ensures((r != nil) == has, "a condition is found if and only if the set holds it")',f'if has && !g.SameIface(e, nil) {{',f'\tt, is := e.(*{ty}UnlockCondition)','\tg.Ensures(is && t == r, "the condition found is the one in the set")','}'])
    c(f'c_{ty}UnlockCondition_Type',f'(*{ty}UnlockCondition).Type',p,f'u *{ty}UnlockCondition',['g.Requires(u != nil)',f'g.Ensures(u.Type() == UnlockCondition{kc}, "the condition type")'],'nopanic')
for a in ['Ed25519','Account','Anchor','NFT','ImplicitAccountCreation']:
    t=a+'Address'
    c(f'c_{t}_ID',f'(*{t}).ID','C06,C13,C16',f'addr *{t}',['g.Requires(addr != nil)','r := addr.ID()',f'g.Ensures(len(r) == 33 && r[0] == byte(Address{a}), "an address identifier starts with the address type")','g.Ensures(g.Forall(0, 32, func(i int) bool { return r[i+1] == addr[i] }), "followed by the bytes of the address")'],'nopanic')
    c(f'c_{t}_Key',f'(*{t}).Key','C06,C03',f'addr *{t}',['g.Requires(addr != nil)','g.Ensures(addr.Key() == string(addr.ID()), "the key is the identifier")'],'nopanic')
    c(f'c_{t}_Equal',f'(*{t}).Equal','C06,C16',f'addr *{t}, other Address',['g.Requires(addr != nil)',f'o, is := other.(*{t})','g.Requires(!is || o != nil)','r := addr.Equal(other)','g.Ensures(r == (is && *addr == *o), "addresses are equal if and only if type and bytes are")'],'nopanic')
    c(f'c_{t}_Type',f'(*{t}).Type','C06,C16',f'addr *{t}',['g.Requires(addr != nil)',f'g.Ensures(addr.Type() == Address{a}, "the address type")'],'nopanic')
open('/verif/contracts/root/accessors.go','w').write("\n".join(o))
