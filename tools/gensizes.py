#!/usr/bin/env python3
# Generates contracts/root/sizes.go: the size of every object is the sum of the sizes of its parts on the wire.
import os
o='''package iotago

import (
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// Generated by tools/gensizes.py.

// sizeOf is the size an object reports, smallSize that it is one an object can have.
func sizeOf(x Sizer) g.Int { return g.N(x.Size()) }

func smallSize(n int) bool { return n >= 0 && n <= 1<<32 }
'''
UC="(UnlockConditions[T]).Size"; FE="(Features[T]).Size"; IF="iface:(Sizer).Size"
n=0
# name, receiver type, opaque, requires, size
T=[]
def t(ty,props,req,size,opq=(),ptr=True,name=None):
    T.append((ty,props,req,size,opq,ptr,name or ty))
W="C24,C11"
for a in ["AccountAddress","AnchorAddress","Ed25519Address","ImplicitAccountCreationAddress","NFTAddress"]:
    t(a,W,[], "g.K(1 + 32)")
t("RestrictedAddress",W,["x.Address != nil","smallSize(x.Address.Size())"],"g.K(1).Add(sizeOf(x.Address)).Add(g.K(1)).Add(g.N(len(x.AllowedCapabilities)))",[IF])
t("AddressWithWeight",W,["x.Address != nil","smallSize(x.Address.Size())"],"sizeOf(x.Address).Add(g.K(1))",[IF])
for u,f in [("AddressUnlockCondition","Address"),("GovernorAddressUnlockCondition","Address"),("StateControllerAddressUnlockCondition","Address")]:
    t(u,W,["x.%s != nil"%f,"smallSize(x.%s.Size())"%f],"g.K(1).Add(sizeOf(x.%s))"%f,[IF])
t("ImmutableAccountUnlockCondition",W,["x.Address != nil"],"g.K(1 + 33)")
t("ExpirationUnlockCondition",W,["x.ReturnAddress != nil","smallSize(x.ReturnAddress.Size())"],"g.K(1 + 4).Add(sizeOf(x.ReturnAddress))",[IF])
t("StorageDepositReturnUnlockCondition",W,["x.ReturnAddress != nil","smallSize(x.ReturnAddress.Size())"],"g.K(1 + 8).Add(sizeOf(x.ReturnAddress))",[IF])
t("TimelockUnlockCondition",W,[],"g.K(1 + 4)")
t("SenderFeature",W,["x.Address != nil","smallSize(x.Address.Size())"],"g.K(1).Add(sizeOf(x.Address))",[IF])
t("IssuerFeature",W,["x.Address != nil","smallSize(x.Address.Size())"],"g.K(1).Add(sizeOf(x.Address))",[IF])
t("MetadataFeature",W,["smallSize(x.mapSize())"],"g.K(1).Add(g.N(x.mapSize()))",["(MetadataFeature).mapSize"])
t("StateMetadataFeature",W,["smallSize(x.mapSize())"],"g.K(1).Add(g.N(x.mapSize()))",["(StateMetadataFeature).mapSize"])
t("TagFeature",W,[],"g.K(1 + 1).Add(g.N(len(x.Tag)))")
t("NativeTokenFeature",W,[],"g.K(1 + 38 + 32)")
t("BlockIssuerFeature",W,["smallSize(x.BlockIssuerKeys.Size())"],"g.K(1 + 4).Add(g.N(x.BlockIssuerKeys.Size()))",["(BlockIssuerKeys).Size"])
t("StakingFeature",W,[],"g.K(1 + 8 + 8 + 4 + 4)")
t("Ed25519PublicKeyHashBlockIssuerKey",W,[],"g.K(1 + 32)")
t("SimpleTokenScheme",W,[],"g.K(1 + 32 + 32 + 32)")
for out,fix,parts in [("BasicOutput","1 + 8 + 8",["UnlockConditions","Features"]),("AccountOutput","1 + 8 + 8 + 32 + 4",["UnlockConditions","Features","ImmutableFeatures"]),
  ("AnchorOutput","1 + 8 + 8 + 32 + 4",["UnlockConditions","Features","ImmutableFeatures"]),("NFTOutput","1 + 8 + 8 + 32",["UnlockConditions","Features","ImmutableFeatures"]),
  ("FoundryOutput","1 + 8 + 4",["TokenScheme","UnlockConditions","Features","ImmutableFeatures"]),("DelegationOutput","1 + 8 + 8 + 32 + 33 + 4 + 4",["UnlockConditions"])]:
    t(out,W,(["x.TokenScheme != nil"] if "TokenScheme" in parts else [])+["smallSize(x.%s.Size())"%p for p in parts],"g.K(%s)"%fix+"".join(".Add(g.N(x.%s.Size()))"%p for p in parts),[UC,FE,IF])
C="C24"
for a in ["CommitmentInput"]: t(a,C,[],"g.K(1 + 36)")
t("BlockIssuanceCreditInput",C,[],"g.K(1 + 32)")
t("RewardInput",C,[],"g.K(1 + 2)")
t("UTXOInput",C,[],"g.K(1 + 36 + 2)")
for a in ["AccountUnlock","AnchorUnlock","NFTUnlock","ReferenceUnlock"]: t(a,C,[],"g.K(1 + 2)")
t("EmptyUnlock",C,[],"g.K(1)")
t("SignatureUnlock",C,["x.Signature != nil","smallSize(x.Signature.Size())"],"g.K(1).Add(sizeOf(x.Signature))",[IF])
t("Ed25519Signature",C,[],"g.K(1 + 32 + 64)")
t("TaggedData",C,[],"g.K(1 + 1 + 4).Add(g.N(len(x.Tag))).Add(g.N(len(x.Data)))")
t("CandidacyAnnouncement",C,[],"g.K(1)")
t("Commitment",C,[],"g.K(1 + 4 + 36 + 32 + 8 + 8)")
t("BlockHeader",C,[],"g.K(1 + 8 + 8 + 36 + 4 + 32)")
t("ValidationBlockBody",C,[],"g.K(1 + 1 + 1 + 1 + 1 + 32).Add(g.K(36).Mul(g.N(len(x.StrongParents)).Add(g.N(len(x.WeakParents))).Add(g.N(len(x.ShallowLikeParents)))))")
t("BasicBlockBody",C,["(x.Payload == nil || smallSize(x.Payload.Size()))"],"g.K(1 + 1 + 1 + 1 + 4 + 8).Add(g.K(36).Mul(g.N(len(x.StrongParents)).Add(g.N(len(x.WeakParents))).Add(g.N(len(x.ShallowLikeParents))))).Add(payloadSizeOf(x.Payload))",[IF,"iface:(Payload).Size"])
t("Block",C,["x.Header != nil || true","x.Body != nil && x.Signature != nil","smallSize(x.Body.Size()) && smallSize(x.Signature.Size())"],"g.N(x.Header.Size()).Add(sizeOf(x.Body)).Add(sizeOf(x.Signature))",[IF])
t("TransactionEssence",C,["(x.Payload == nil || smallSize(x.Payload.Size()))","smallSize(x.ContextInputs.Size()) && smallSize(x.Inputs.Size())","len(x.Allotments) <= 1<<20"],"g.K(8 + 4 + 2 + 1 + 4).Add(g.N(x.ContextInputs.Size())).Add(g.N(x.Inputs.Size())).Add(g.K(40).Mul(g.N(len(x.Allotments)))).Add(g.N(len(x.Capabilities))).Add(payloadSizeOf(x.Payload))",[IF,"(Inputs[T]).Size","(ContextInputs[T]).Size"])
t("Transaction",C,["x.TransactionEssence != nil","smallSize(x.TransactionEssence.Size()) && smallSize(x.Outputs.Size())"],"g.N(x.TransactionEssence.Size()).Add(g.N(x.Outputs.Size()))",["(*TransactionEssence).Size","(Outputs[T]).Size"])
t("SignedTransaction",C,["x.Transaction != nil","smallSize(x.Transaction.Size()) && smallSize(x.Unlocks.Size())"],"g.K(1).Add(g.N(x.Transaction.Size())).Add(g.N(x.Unlocks.Size()))",["(*Transaction).Size","(Unlocks).Size"])
o+='''
func payloadSizeOf(p Payload) g.Int {
	if p == nil {
		return g.K(0)
	}
	return g.N(p.Size())
}
'''
byval={"MetadataFeature","StateMetadataFeature"}
for ty,props,req,size,opq,ptr,name in T:
    req=[r for r in req if "|| true" not in r]
    o+='''
//gvc:contract target=%s.Size props=%s stable%s
func c_%s_Size(x *%s) {
	g.Requires(%s)
	g.Ensures(g.N(x.Size()).Eq(%s), "the size is the sum of the sizes of the parts on the wire")
}
'''%("(%s)"%ty if ty in byval else "(*%s)"%ty,props," opaque="+",".join(opq) if opq else "",name,ty," && ".join(["x != nil"]+req),size)
# lists
L=[("UnlockConditions","UnlockConditions[BasicOutputUnlockCondition]","UnlockConditions[T]","f",1,W),
("Features","Features[BasicOutputFeature]","Features[T]","f",1,W),
("BlockIssuerKeys","BlockIssuerKeys","BlockIssuerKeys","keys",1,W),
("Inputs","TxEssenceInputs","Inputs[T]","in",2,C),
("ContextInputs","TxEssenceContextInputs","ContextInputs[T]","in",2,C),
("Outputs","TxEssenceOutputs","Outputs[T]","outputs",2,C),
("Unlocks","Unlocks","Unlocks","o",2,C)]
for name,ty,tg,recv,pre,props in L:
    acc="size" if name=="BlockIssuerKeys" else "sum"
    o+='''
//gvc:contract target=(%s).Size props=%s stable opaque=%s
func c_%s_Size(l %s) {
	g.Requires(len(l) <= 1<<20 && g.Forall(0, len(l), func(i int) bool { return l[i] != nil && smallSize(l[i].Size()) }))
	g.Ensures(g.N(l.Size()).Eq(g.K(%d).Add(g.Sum(0, len(l), func(i int) g.Int { return sizeOf(l[i]) }))), "the size of a list is that of its length prefix and its elements")
}

//gvc:invariant for=c_%s_Size
func inv_%s_Size(%s %s, %s int, i int) bool {
	return g.N(%s).Eq(g.K(%d).Add(g.Sum(0, i, func(k int) g.Int { return sizeOf(%s[k]) }))) && %s >= 0 && %s <= 2+i*(1<<32)
}
'''%(tg,props,IF,name,ty,pre,name,name,recv,ty,acc,acc,pre,recv,acc,acc)
for name,ty,fld,pre in [("MultiAddress","MultiAddress","Addresses",4),("MultiUnlock","MultiUnlock","Unlocks",2)]:
    el="address" if name=="MultiAddress" else "unlock"
    nn="x.Addresses[i] != nil && x.Addresses[i].Address != nil && smallSize(x.Addresses[i].Address.Size())" if name=="MultiAddress" else "x.Unlocks[i] != nil && smallSize(x.Unlocks[i].Size())"
    sz="sizeOf(%s.Addresses[%s].Address).Add(g.K(1))" if name=="MultiAddress" else "sizeOf(%s.Unlocks[%s])"
    recv="addr" if name=="MultiAddress" else "u"
    o+='''
//gvc:contract target=(*%s).Size props=%s stable opaque=%s
func c_%s_Size(x *%s) {
	g.Requires(x != nil && len(x.%s) <= 1<<20 && g.Forall(0, len(x.%s), func(i int) bool { return %s }))
	g.Ensures(g.N(x.Size()).Eq(g.K(%d).Add(g.Sum(0, len(x.%s), func(i int) g.Int { return %s }))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:invariant for=c_%s_Size
func inv_%s_Size(%s *%s, sum int, i int) bool {
	return g.N(sum).Eq(g.K(%d).Add(g.Sum(0, i, func(k int) g.Int { return %s }))) && sum >= 0 && sum <= 4+i*(1<<32+1)
}
'''%(name,W if name=="MultiAddress" else C,IF,name,name,fld,fld,nn,pre,fld,sz%("x","i"),name,name,recv,name,pre,sz%(recv,"k"))
open(os.path.join(os.path.dirname(__file__),"../contracts/root/sizes.go"),"w").write(o)
