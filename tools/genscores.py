#!/usr/bin/env python3
# Generates contracts/root/scores.go: work score and storage score of every object.
import os
o='''package iotago

import (
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// Generated by tools/genscores.py.

// workOf is the work score a computation yields, workFails that it reports an error.
func workOf(w WorkScore, _ error) g.Int { return g.N(w) }

func workFails(_ WorkScore, err error) bool { return err != nil }

// scoreOf is the storage score of an object.
func scoreOf(x NonEphemeralObject, s *StorageScoreStructure) g.Int { return g.N(x.StorageScore(s, nil)) }

func smallScore(x StorageScore) bool { return x <= 1<<40 }

func structOK(s *StorageScoreStructure) bool {
	return s != nil && s.StorageScoreParameters != nil && smallScore(s.OffsetOutput) && smallScore(s.OffsetImplicitAccountCreationAddress) && smallScore(s.OffsetDelegation()) && smallScore(s.OffsetStakingFeature()) && smallScore(s.OffsetEd25519BlockIssuerKey())
}

//gvc:contract target=(WorkScore).Add props=C17
func c_WorkScore_Add(w WorkScore, a WorkScore, b WorkScore, c WorkScore, d WorkScore) {
	r1, err1 := w.Add(a)
	s1 := g.N(w).Add(g.N(a))
	g.Ensures((err1 == nil) == s1.Lt(g.Pow2(32)) && g.Implies(err1 == nil, g.N(r1).Eq(s1)), "adding one score is exact or an error")
	r2, err2 := w.Add(a, b)
	s2 := s1.Add(g.N(b))
	g.Ensures((err2 == nil) == s2.Lt(g.Pow2(32)) && g.Implies(err2 == nil, g.N(r2).Eq(s2)), "adding two scores is exact or an error")
	r4, err4 := w.Add(a, b, c, d)
	s4 := s2.Add(g.N(c)).Add(g.N(d))
	g.Ensures((err4 == nil) == s4.Lt(g.Pow2(32)) && g.Implies(err4 == nil, g.N(r4).Eq(s4)), "adding four scores is exact or an error")
}

//gvc:contract target=(WorkScore).Multiply props=C17
func c_WorkScore_Multiply(w WorkScore, in int) {
	g.Requires(in >= 0 && in < 1<<32)
	r, err := w.Multiply(in)
	p := g.N(w).Mul(g.N(in))
	g.Ensures((err == nil) == p.Lt(g.Pow2(32)) && g.Implies(err == nil, g.N(r).Eq(p)), "a product of scores is exact or an error")
}

//gvc:contract target=ManaCost props=C17
func c_ManaCost(rmc Mana, w WorkScore) {
	r, err := ManaCost(rmc, w)
	p := g.N(rmc).Mul(g.N(w))
	g.Ensures((err == nil) == p.Lt(g.Pow2(64)) && g.Implies(err == nil, g.N(r).Eq(p)), "the mana cost is work score times reference mana cost, exact or an error")
}

//gvc:contract target=(WorkScoreParameters).MaxBlockWork props=C17 timeout=60000
func c_MaxBlockWork(p WorkScoreParameters) {
	r, err := p.MaxBlockWork()
	s := g.N(p.DataByte).Mul(g.K(MaxPayloadSize)).Add(g.N(p.Block)).Add(g.N(p.Input).Mul(g.K(MaxInputsCount))).Add(g.N(p.ContextInput).Mul(g.K(MaxContextInputsCount))).Add(g.N(p.Output).Mul(g.K(MaxOutputsCount))).Add(g.N(p.NativeToken).Mul(g.K(MaxOutputsCount))).Add(g.N(p.Staking).Mul(g.K(MaxOutputsCount))).Add(g.N(p.BlockIssuer).Mul(g.K(MaxOutputsCount))).Add(g.N(p.Allotment).Mul(g.K(MaxAllotmentCount))).Add(g.N(p.SignatureEd25519).Mul(g.K(MaxInputsCount * 10)))
	g.Ensures(g.Implies(err == nil, g.N(r).Eq(s)), "the maximal work of a block is the exact weighted sum")
	g.Ensures((err == nil) == s.Lt(g.Pow2(32)), "overflow of the maximal work is an error")
}
'''
IF="iface:(ProcessableObject).WorkScore"
UC="(UnlockConditions[T]).WorkScore"; FE="(Features[T]).WorkScore"
def ws(ty,summands,req=(),opq=(),parts=(),byval=False,call="p"):
    # summands: plain Int exprs; parts: expressions of type (WorkScore, error)
    global o
    s=summands[0] if summands else "g.K(0)"
    for x in summands[1:]: s+=".Add(%s)"%x
    for x in parts: s=(s+".Add(workOf(%s))"%x)
    bad=" || ".join("workFails(%s)"%x for x in parts) or "false"
    o+='''
//gvc:contract target=%s.WorkScore props=C17 stable%s
func c_%s_WorkScore(x %s%s, p *WorkScoreParameters) {
	g.Requires(%s)
	w, err := x.WorkScore(%s)
	bad := %s
	sum := %s
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}
'''%("(%s)"%ty if byval else "(*%s)"%ty," opaque="+",".join(opq) if opq else "",ty,"" if byval else "*",ty," && ".join((["p != nil"] if byval else ["x != nil","p != nil"])+list(req)),call,bad,s)
for u in ["AddressUnlockCondition","GovernorAddressUnlockCondition","StateControllerAddressUnlockCondition","ImmutableAccountUnlockCondition","ExpirationUnlockCondition","StorageDepositReturnUnlockCondition","TimelockUnlockCondition","SenderFeature","IssuerFeature","TagFeature","AccountUnlock","AnchorUnlock","NFTUnlock","ReferenceUnlock","EmptyUnlock","ValidationBlockBody"]:
    ws(u,[])
for u in ["MetadataFeature","StateMetadataFeature"]: ws(u,[],byval=True)
for u,f in [("NativeTokenFeature","NativeToken"),("BlockIssuerFeature","BlockIssuer"),("StakingFeature","Staking"),("SimpleTokenScheme","NativeToken"),("UTXOInput","Input"),("CommitmentInput","ContextInput"),("BlockIssuanceCreditInput","ContextInput"),("RewardInput","ContextInput"),("Ed25519Signature","SignatureEd25519")]:
    ws(u,["g.N(p.%s)"%f])
ws("SignatureUnlock",[],["x.Signature != nil"],[IF],["x.Signature.WorkScore(p)"])
ws("Allotments",["g.N(p.Allotment).Mul(g.N(len(x)))"],["len(x) < 1<<32"],byval=True)
for out,parts in [("BasicOutput",["UnlockConditions","Features"]),("AccountOutput",["UnlockConditions","Features","ImmutableFeatures"]),("AnchorOutput",["UnlockConditions","Features","ImmutableFeatures"]),("NFTOutput",["UnlockConditions","Features","ImmutableFeatures"]),("FoundryOutput",["TokenScheme","UnlockConditions","Features","ImmutableFeatures"]),("DelegationOutput",["UnlockConditions"])]:
    ws(out,["g.N(p.Output)"],["x.TokenScheme != nil"] if out=="FoundryOutput" else [],[UC,FE,IF],["x.%s.WorkScore(p)"%q for q in parts])
ws("TransactionEssence",[],[],["(ContextInputs[T]).WorkScore","(Inputs[T]).WorkScore","(Allotments).WorkScore"],["x.ContextInputs.WorkScore(p)","x.Inputs.WorkScore(p)","x.Allotments.WorkScore(p)"])
ws("Transaction",[],["x.TransactionEssence != nil"],["(*TransactionEssence).WorkScore","(Outputs[T]).WorkScore"],["x.TransactionEssence.WorkScore(p)","x.Outputs.WorkScore(p)"])
ws("TaggedData",["g.N(p.Block)","g.N(p.DataByte).Mul(g.N(x.Size()))"],["x.Size() >= 0 && x.Size() < 1<<32"],["(*TaggedData).Size"])
ws("CandidacyAnnouncement",["g.N(p.Block)","g.N(p.DataByte).Mul(g.N(x.Size()))"],["x.Size() >= 0 && x.Size() < 1<<32"],["(*CandidacyAnnouncement).Size"])
ws("SignedTransaction",["g.N(p.Block)","g.N(p.DataByte).Mul(g.N(x.Size()))"],["x.Transaction != nil","x.Size() >= 0 && x.Size() < 1<<32"],["(*SignedTransaction).Size","(*Transaction).WorkScore","(Unlocks).WorkScore"],["x.Transaction.WorkScore(p)","x.Unlocks.WorkScore(p)"])
o+='''
//gvc:contract target=(*BasicBlockBody).WorkScore props=C17 stable opaque=iface:(ProcessableObject).WorkScore
func c_BasicBlockBody_WorkScore(x *BasicBlockBody, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	if x.Payload == nil {
		g.Ensures(err == nil && w == p.Block, "a block without payload costs the block offset")
	} else {
		v, e := x.Payload.WorkScore(p)
		g.Ensures((err == nil) == (e == nil) && g.Implies(err == nil, w == v), "a block costs what its payload does")
	}
}

//gvc:contract target=(*Block).WorkScore props=C17 stable opaque=iface:(ProcessableObject).WorkScore,iface:(ProtocolParameters).WorkScoreParameters,iface:(API).ProtocolParameters
func c_Block_WorkScore(x *Block) {
	g.Requires(x != nil && x.API != nil && x.API.ProtocolParameters() != nil && x.Body != nil)
	p := x.API.ProtocolParameters().WorkScoreParameters()
	g.Requires(p != nil)
	w, err := x.WorkScore()
	v, e := x.Body.WorkScore(p)
	g.Ensures((err == nil) == (e == nil) && g.Implies(err == nil, w == v), "a block costs what its body does")
}

//gvc:contract target=(*Block).ManaCost props=C17 stable opaque=(*Block).WorkScore
func c_Block_ManaCost(x *Block, rmc Mana) {
	g.Requires(x != nil)
	r, err := x.ManaCost(rmc)
	v, e := x.WorkScore()
	p := g.N(rmc).Mul(g.N(v))
	g.Ensures((err == nil) == (e == nil && p.Lt(g.Pow2(64))), "an error exactly if the work score fails or the cost overflows")
	g.Ensures(g.Implies(err == nil, g.N(r).Eq(p)), "the mana cost of a block is its work score times the reference mana cost")
}
'''
for name,ty,tg,recv,acc,opq in [("UnlockConditions","UnlockConditions[BasicOutputUnlockCondition]","UnlockConditions[T]","f","workScoreUnlockConds",IF),("Features","Features[BasicOutputFeature]","Features[T]","f","workScoreFeats",IF),("Inputs","TxEssenceInputs","Inputs[T]","in","workScoreInputs",IF),("ContextInputs","TxEssenceContextInputs","ContextInputs[T]","in","workScoreContextInputs",IF),("Outputs","TxEssenceOutputs","Outputs[T]","outputs","workScoreOutputs",IF),("Unlocks","Unlocks","Unlocks","o","workScoreUnlocks",IF),("MultiUnlock","*MultiUnlock","*MultiUnlock","u","sum",IF)]:
    l="x.Unlocks" if name=="MultiUnlock" else "x"
    rl="u.Unlocks" if name=="MultiUnlock" else recv
    o+='''
//gvc:contract target=(%s).WorkScore props=C17 stable opaque=%s
func c_%s_WorkScore(x %s, p *WorkScoreParameters) {
	g.Requires(%sp != nil && g.Forall(0, len(%s), func(i int) bool { return %s[i] != nil }))
	w, err := x.WorkScore(p)
	g.Ensures(g.Implies(err == nil, g.Forall(0, len(%s), func(i int) bool { return !workFails(%s[i].WorkScore(p)) })), "a failing element is an error")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(g.Sum(0, len(%s), func(i int) g.Int { return workOf(%s[i].WorkScore(p)) }))), "the work score of a list is the exact sum over its elements")
	g.Ensures(g.Implies(err != nil, g.Exists(0, len(%s), func(i int) bool { return workFails(%s[i].WorkScore(p)) }) || g.Pow2(32).Le(g.Sum(0, len(%s), func(i int) g.Int { return workOf(%s[i].WorkScore(p)) }))), "an error only if an element fails or the sum overflows")
}

//gvc:invariant for=c_%s_WorkScore
func inv_%s_WorkScore(%s %s, workScoreParameters *WorkScoreParameters, %s WorkScore, i int) bool {
	return g.N(%s).Eq(g.Sum(0, i, func(k int) g.Int { return workOf(%s[k].WorkScore(workScoreParameters)) }))
}

//gvc:invariant for=c_%s_WorkScore
func inv_%s_WorkScore_ok(%s %s, workScoreParameters *WorkScoreParameters, i int) bool {
	return g.Forall(0, i, func(k int) bool { return !workFails(%s[k].WorkScore(workScoreParameters)) })
}
'''%((tg,opq,name,ty,"x != nil && " if name=="MultiUnlock" else "")+(l,)*10+(name,name,recv,ty,acc,acc,rl,name,name,recv,ty,rl))
# ---- storage score
NE="iface:(NonEphemeralObject).StorageScore"
def ss(ty,expr,req=(),opq=(),byval=False,asserts=None):
    global o
    o+='''
//gvc:contract target=%s.StorageScore props=C11 stable%s
func c_%s_StorageScore(x %s%s, s *StorageScoreStructure) {
	g.Requires(%s)
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(%s), "the storage score is the exact sum of its parts")
}
'''%("(%s)"%ty if byval else "(*%s)"%ty," opaque="+",".join(opq) if opq else "",ty,"" if byval else "*",ty," && ".join((["structOK(s)"] if byval else ["x != nil","structOK(s)"])+list(req)),expr)
for a in ["AccountAddress","AnchorAddress","Ed25519Address","NFTAddress","MultiAddress","RestrictedAddress","NativeTokenFeature","TagFeature","TimelockUnlockCondition","SimpleTokenScheme"]: ss(a,"g.K(0)")
for a in ["MetadataFeature","StateMetadataFeature"]: ss(a,"g.K(0)",byval=True)
ss("ImplicitAccountCreationAddress","g.N(s.OffsetImplicitAccountCreationAddress)")
ss("StakingFeature","g.N(s.StorageScoreParameters.OffsetStakingFeature)")
ss("Ed25519PublicKeyHashBlockIssuerKey","g.N(s.StorageScoreParameters.OffsetEd25519BlockIssuerKey)")
ss("BlockIssuerFeature","g.N(x.BlockIssuerKeys.StorageScore(s, nil))",opq=["(BlockIssuerKeys).StorageScore"])
for u,f in [("AddressUnlockCondition","Address"),("GovernorAddressUnlockCondition","Address"),("StateControllerAddressUnlockCondition","Address"),("ExpirationUnlockCondition","ReturnAddress"),("StorageDepositReturnUnlockCondition","ReturnAddress"),("SenderFeature","Address"),("IssuerFeature","Address")]:
    ss(u,"scoreOf(x.%s, s)"%f,["x.%s != nil"%f],[NE])
ss("ImmutableAccountUnlockCondition","g.K(0)",["x.Address != nil"])
for out,parts in [("BasicOutput",["UnlockConditions","Features"]),("AccountOutput",["UnlockConditions","Features","ImmutableFeatures"]),("AnchorOutput",["UnlockConditions","Features","ImmutableFeatures"]),("NFTOutput",["UnlockConditions","Features","ImmutableFeatures"]),("FoundryOutput",["TokenScheme","UnlockConditions","Features","ImmutableFeatures"]),("DelegationOutput",["UnlockConditions"])]:
    e="g.N(s.OffsetOutput).Add(g.N(s.StorageScoreParameters.FactorData).Mul(g.N(x.Size())))"+"".join(".Add(g.N(x.%s.StorageScore(s, nil)))"%p for p in parts)
    if out=="DelegationOutput": e+=".Add(g.N(s.StorageScoreParameters.OffsetDelegation))"
    req=(["x.TokenScheme != nil"] if out=="FoundryOutput" else [])+["smallSize(x.Size())"]+["smallScore(x.%s.StorageScore(s, nil))"%p for p in parts]
    ss(out,e,req,["(*%s).Size"%out,"(UnlockConditions[T]).StorageScore","(Features[T]).StorageScore",NE])
for name,ty,tg,recv,acc in [("UnlockConditions","UnlockConditions[BasicOutputUnlockCondition]","UnlockConditions[T]","f","sumCost"),("Features","Features[BasicOutputFeature]","Features[T]","f","sumCost"),("BlockIssuerKeys","BlockIssuerKeys","BlockIssuerKeys","keys","storageScore")]:
    o+='''
//gvc:contract target=(%s).StorageScore props=C11 stable opaque=%s
func c_%s_StorageScore(x %s, s *StorageScoreStructure) {
	g.Requires(structOK(s) && len(x) <= 1<<20 && g.Forall(0, len(x), func(i int) bool { return x[i] != nil && smallScore(x[i].StorageScore(s, nil)) }))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.Sum(0, len(x), func(i int) g.Int { return scoreOf(x[i], s) })), "the storage score of a list is the exact sum over its elements")
}

//gvc:invariant for=c_%s_StorageScore
func inv_%s_StorageScore(%s %s, storageScoreStruct *StorageScoreStructure, %s StorageScore, i int) bool {
	return g.N(%s).Eq(g.Sum(0, i, func(k int) g.Int { return scoreOf(%s[k], storageScoreStruct) })) && %s <= StorageScore(i)*(1<<40)
}
'''%(tg,NE,name,ty,name,name,recv,ty,acc,acc,recv,acc)
o+='''
//gvc:contract target=(*StorageScoreStructure).MinStorageDepositForReturnOutput props=C11 stable opaque=(*MultiAddress).Size,(*RestrictedAddress).Size
func c_MinStorageDepositForReturnOutput(s *StorageScoreStructure, a Address) {
	g.Requires(structOK(s) && a != nil && smallSize(a.Size()) && smallScore(a.StorageScore(s, nil)))
	r, err := s.MinStorageDepositForReturnOutput(a)
	// a basic output that holds nothing but its address
	size := g.K(1 + 8 + 8 + 1 + 1 + 1).Add(g.N(a.Size()))
	score := g.N(s.OffsetOutput).Add(g.N(s.StorageScoreParameters.FactorData).Mul(size)).Add(scoreOf(a, s))
	cost := g.N(s.StorageScoreParameters.StorageCost).Mul(score)
	g.Ensures((err == nil) == cost.Lt(g.Pow2(64)), "an error exactly if the cost overflows")
	g.Ensures(g.Implies(err == nil, g.N(r).Eq(cost)), "the deposit of a return output is that of a basic output with nothing but its address")
}

//gvc:contract target=NewStorageScoreStructure props=C11
func c_NewStorageScoreStructure(p *StorageScoreParameters) {
	g.Requires(p != nil && smallScore(p.OffsetOutputOverhead) && smallScore(p.OffsetEd25519BlockIssuerKey))
	s := NewStorageScoreStructure(p)
	f := g.N(p.FactorData)
	g.Ensures(g.N(s.OffsetOutput).Eq(g.N(p.OffsetOutputOverhead).Add(f.Mul(g.K(OutputIDLength+BlockIDLength+SlotIndexLength)))), "the offset of an output is its overhead and its metadata")
	// a minimal block issuer account (its identifier, foundry counter, feature with one key and empty list of immutable features) in excess of a basic output
	g.Ensures(g.N(s.OffsetImplicitAccountCreationAddress).Eq(f.Mul(g.K(32+4+1+(1+4+1+33))).Add(g.N(p.OffsetEd25519BlockIssuerKey))), "an implicit account creation address costs what a block issuer account has in excess of a basic output")
	g.Ensures(s.StorageScoreParameters == p, "the structure keeps its parameters")
}
'''
open(os.path.join(os.path.dirname(__file__),"../contracts/root/scores.go"),"w").write(o)
