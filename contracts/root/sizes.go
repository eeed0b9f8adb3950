package iotago

import (
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// Generated by tools/gensizes.py.

// sizeOf is the size an object reports, smallSize that it is one an object can have.
func sizeOf(x Sizer) g.Int { return g.N(x.Size()) }

func smallSize(n int) bool { return n >= 0 && n <= 1<<32 }

func payloadSizeOf(p Payload) g.Int {
	if p == nil {
		return g.K(0)
	}
	return g.N(p.Size())
}

//gvc:contract target=(*AccountAddress).Size props=C24,C11 stable
func c_AccountAddress_Size(x *AccountAddress) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+32)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*AnchorAddress).Size props=C24,C11 stable
func c_AnchorAddress_Size(x *AnchorAddress) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+32)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*Ed25519Address).Size props=C24,C11 stable
func c_Ed25519Address_Size(x *Ed25519Address) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+32)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*ImplicitAccountCreationAddress).Size props=C24,C11 stable
func c_ImplicitAccountCreationAddress_Size(x *ImplicitAccountCreationAddress) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+32)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*NFTAddress).Size props=C24,C11 stable
func c_NFTAddress_Size(x *NFTAddress) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+32)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*RestrictedAddress).Size props=C24,C11 stable opaque=iface:(Sizer).Size
func c_RestrictedAddress_Size(x *RestrictedAddress) {
	g.Requires(x != nil && x.Address != nil && smallSize(x.Address.Size()))
	g.Ensures(g.N(x.Size()).Eq(g.K(1).Add(sizeOf(x.Address)).Add(g.K(1)).Add(g.N(len(x.AllowedCapabilities)))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*AddressWithWeight).Size props=C24,C11 stable opaque=iface:(Sizer).Size
func c_AddressWithWeight_Size(x *AddressWithWeight) {
	g.Requires(x != nil && x.Address != nil && smallSize(x.Address.Size()))
	g.Ensures(g.N(x.Size()).Eq(sizeOf(x.Address).Add(g.K(1))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*AddressUnlockCondition).Size props=C24,C11 stable opaque=iface:(Sizer).Size
func c_AddressUnlockCondition_Size(x *AddressUnlockCondition) {
	g.Requires(x != nil && x.Address != nil && smallSize(x.Address.Size()))
	g.Ensures(g.N(x.Size()).Eq(g.K(1).Add(sizeOf(x.Address))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*GovernorAddressUnlockCondition).Size props=C24,C11 stable opaque=iface:(Sizer).Size
func c_GovernorAddressUnlockCondition_Size(x *GovernorAddressUnlockCondition) {
	g.Requires(x != nil && x.Address != nil && smallSize(x.Address.Size()))
	g.Ensures(g.N(x.Size()).Eq(g.K(1).Add(sizeOf(x.Address))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*StateControllerAddressUnlockCondition).Size props=C24,C11 stable opaque=iface:(Sizer).Size
func c_StateControllerAddressUnlockCondition_Size(x *StateControllerAddressUnlockCondition) {
	g.Requires(x != nil && x.Address != nil && smallSize(x.Address.Size()))
	g.Ensures(g.N(x.Size()).Eq(g.K(1).Add(sizeOf(x.Address))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*ImmutableAccountUnlockCondition).Size props=C24,C11 stable
func c_ImmutableAccountUnlockCondition_Size(x *ImmutableAccountUnlockCondition) {
	g.Requires(x != nil && x.Address != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+33)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*ExpirationUnlockCondition).Size props=C24,C11 stable opaque=iface:(Sizer).Size
func c_ExpirationUnlockCondition_Size(x *ExpirationUnlockCondition) {
	g.Requires(x != nil && x.ReturnAddress != nil && smallSize(x.ReturnAddress.Size()))
	g.Ensures(g.N(x.Size()).Eq(g.K(1+4).Add(sizeOf(x.ReturnAddress))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*StorageDepositReturnUnlockCondition).Size props=C24,C11 stable opaque=iface:(Sizer).Size
func c_StorageDepositReturnUnlockCondition_Size(x *StorageDepositReturnUnlockCondition) {
	g.Requires(x != nil && x.ReturnAddress != nil && smallSize(x.ReturnAddress.Size()))
	g.Ensures(g.N(x.Size()).Eq(g.K(1+8).Add(sizeOf(x.ReturnAddress))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*TimelockUnlockCondition).Size props=C24,C11 stable
func c_TimelockUnlockCondition_Size(x *TimelockUnlockCondition) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+4)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*SenderFeature).Size props=C24,C11 stable opaque=iface:(Sizer).Size
func c_SenderFeature_Size(x *SenderFeature) {
	g.Requires(x != nil && x.Address != nil && smallSize(x.Address.Size()))
	g.Ensures(g.N(x.Size()).Eq(g.K(1).Add(sizeOf(x.Address))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*IssuerFeature).Size props=C24,C11 stable opaque=iface:(Sizer).Size
func c_IssuerFeature_Size(x *IssuerFeature) {
	g.Requires(x != nil && x.Address != nil && smallSize(x.Address.Size()))
	g.Ensures(g.N(x.Size()).Eq(g.K(1).Add(sizeOf(x.Address))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(MetadataFeature).Size props=C24,C11 stable opaque=(MetadataFeature).mapSize
func c_MetadataFeature_Size(x *MetadataFeature) {
	g.Requires(x != nil && smallSize(x.mapSize()))
	g.Ensures(g.N(x.Size()).Eq(g.K(1).Add(g.N(x.mapSize()))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(StateMetadataFeature).Size props=C24,C11 stable opaque=(StateMetadataFeature).mapSize
func c_StateMetadataFeature_Size(x *StateMetadataFeature) {
	g.Requires(x != nil && smallSize(x.mapSize()))
	g.Ensures(g.N(x.Size()).Eq(g.K(1).Add(g.N(x.mapSize()))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*TagFeature).Size props=C24,C11 stable
func c_TagFeature_Size(x *TagFeature) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+1).Add(g.N(len(x.Tag)))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*NativeTokenFeature).Size props=C24,C11 stable
func c_NativeTokenFeature_Size(x *NativeTokenFeature) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+38+32)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*BlockIssuerFeature).Size props=C24,C11 stable opaque=(BlockIssuerKeys).Size
func c_BlockIssuerFeature_Size(x *BlockIssuerFeature) {
	g.Requires(x != nil && smallSize(x.BlockIssuerKeys.Size()))
	g.Ensures(g.N(x.Size()).Eq(g.K(1+4).Add(g.N(x.BlockIssuerKeys.Size()))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*StakingFeature).Size props=C24,C11 stable
func c_StakingFeature_Size(x *StakingFeature) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+8+8+4+4)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*Ed25519PublicKeyHashBlockIssuerKey).Size props=C24,C11 stable
func c_Ed25519PublicKeyHashBlockIssuerKey_Size(x *Ed25519PublicKeyHashBlockIssuerKey) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+32)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*SimpleTokenScheme).Size props=C24,C11 stable
func c_SimpleTokenScheme_Size(x *SimpleTokenScheme) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+32+32+32)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*BasicOutput).Size props=C24,C11 stable opaque=(UnlockConditions[T]).Size,(Features[T]).Size,iface:(Sizer).Size
func c_BasicOutput_Size(x *BasicOutput) {
	g.Requires(x != nil && smallSize(x.UnlockConditions.Size()) && smallSize(x.Features.Size()))
	g.Ensures(g.N(x.Size()).Eq(g.K(1+8+8).Add(g.N(x.UnlockConditions.Size())).Add(g.N(x.Features.Size()))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*AccountOutput).Size props=C24,C11 stable opaque=(UnlockConditions[T]).Size,(Features[T]).Size,iface:(Sizer).Size
func c_AccountOutput_Size(x *AccountOutput) {
	g.Requires(x != nil && smallSize(x.UnlockConditions.Size()) && smallSize(x.Features.Size()) && smallSize(x.ImmutableFeatures.Size()))
	g.Ensures(g.N(x.Size()).Eq(g.K(1+8+8+32+4).Add(g.N(x.UnlockConditions.Size())).Add(g.N(x.Features.Size())).Add(g.N(x.ImmutableFeatures.Size()))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*AnchorOutput).Size props=C24,C11 stable opaque=(UnlockConditions[T]).Size,(Features[T]).Size,iface:(Sizer).Size
func c_AnchorOutput_Size(x *AnchorOutput) {
	g.Requires(x != nil && smallSize(x.UnlockConditions.Size()) && smallSize(x.Features.Size()) && smallSize(x.ImmutableFeatures.Size()))
	g.Ensures(g.N(x.Size()).Eq(g.K(1+8+8+32+4).Add(g.N(x.UnlockConditions.Size())).Add(g.N(x.Features.Size())).Add(g.N(x.ImmutableFeatures.Size()))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*NFTOutput).Size props=C24,C11 stable opaque=(UnlockConditions[T]).Size,(Features[T]).Size,iface:(Sizer).Size
func c_NFTOutput_Size(x *NFTOutput) {
	g.Requires(x != nil && smallSize(x.UnlockConditions.Size()) && smallSize(x.Features.Size()) && smallSize(x.ImmutableFeatures.Size()))
	g.Ensures(g.N(x.Size()).Eq(g.K(1+8+8+32).Add(g.N(x.UnlockConditions.Size())).Add(g.N(x.Features.Size())).Add(g.N(x.ImmutableFeatures.Size()))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*FoundryOutput).Size props=C24,C11 stable opaque=(UnlockConditions[T]).Size,(Features[T]).Size,iface:(Sizer).Size
func c_FoundryOutput_Size(x *FoundryOutput) {
	g.Requires(x != nil && x.TokenScheme != nil && smallSize(x.TokenScheme.Size()) && smallSize(x.UnlockConditions.Size()) && smallSize(x.Features.Size()) && smallSize(x.ImmutableFeatures.Size()))
	g.Ensures(g.N(x.Size()).Eq(g.K(1+8+4).Add(g.N(x.TokenScheme.Size())).Add(g.N(x.UnlockConditions.Size())).Add(g.N(x.Features.Size())).Add(g.N(x.ImmutableFeatures.Size()))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*DelegationOutput).Size props=C24,C11 stable opaque=(UnlockConditions[T]).Size,(Features[T]).Size,iface:(Sizer).Size
func c_DelegationOutput_Size(x *DelegationOutput) {
	g.Requires(x != nil && smallSize(x.UnlockConditions.Size()))
	g.Ensures(g.N(x.Size()).Eq(g.K(1+8+8+32+33+4+4).Add(g.N(x.UnlockConditions.Size()))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*CommitmentInput).Size props=C24 stable
func c_CommitmentInput_Size(x *CommitmentInput) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+36)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*BlockIssuanceCreditInput).Size props=C24 stable
func c_BlockIssuanceCreditInput_Size(x *BlockIssuanceCreditInput) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+32)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*RewardInput).Size props=C24 stable
func c_RewardInput_Size(x *RewardInput) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+2)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*UTXOInput).Size props=C24 stable
func c_UTXOInput_Size(x *UTXOInput) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+36+2)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*AccountUnlock).Size props=C24 stable
func c_AccountUnlock_Size(x *AccountUnlock) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+2)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*AnchorUnlock).Size props=C24 stable
func c_AnchorUnlock_Size(x *AnchorUnlock) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+2)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*NFTUnlock).Size props=C24 stable
func c_NFTUnlock_Size(x *NFTUnlock) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+2)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*ReferenceUnlock).Size props=C24 stable
func c_ReferenceUnlock_Size(x *ReferenceUnlock) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+2)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*EmptyUnlock).Size props=C24 stable
func c_EmptyUnlock_Size(x *EmptyUnlock) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*SignatureUnlock).Size props=C24 stable opaque=iface:(Sizer).Size
func c_SignatureUnlock_Size(x *SignatureUnlock) {
	g.Requires(x != nil && x.Signature != nil && smallSize(x.Signature.Size()))
	g.Ensures(g.N(x.Size()).Eq(g.K(1).Add(sizeOf(x.Signature))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*Ed25519Signature).Size props=C24 stable
func c_Ed25519Signature_Size(x *Ed25519Signature) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+32+64)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*TaggedData).Size props=C24 stable
func c_TaggedData_Size(x *TaggedData) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+1+4).Add(g.N(len(x.Tag))).Add(g.N(len(x.Data)))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*CandidacyAnnouncement).Size props=C24 stable
func c_CandidacyAnnouncement_Size(x *CandidacyAnnouncement) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*Commitment).Size props=C24 stable
func c_Commitment_Size(x *Commitment) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+4+36+32+8+8)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*BlockHeader).Size props=C24 stable
func c_BlockHeader_Size(x *BlockHeader) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+8+8+36+4+32)), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*ValidationBlockBody).Size props=C24 stable
func c_ValidationBlockBody_Size(x *ValidationBlockBody) {
	g.Requires(x != nil)
	g.Ensures(g.N(x.Size()).Eq(g.K(1+1+1+1+1+32).Add(g.K(36).Mul(g.N(len(x.StrongParents)).Add(g.N(len(x.WeakParents))).Add(g.N(len(x.ShallowLikeParents)))))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*BasicBlockBody).Size props=C24 stable opaque=iface:(Sizer).Size,iface:(Payload).Size
func c_BasicBlockBody_Size(x *BasicBlockBody) {
	g.Requires(x != nil && (x.Payload == nil || smallSize(x.Payload.Size())))
	g.Ensures(g.N(x.Size()).Eq(g.K(1+1+1+1+4+8).Add(g.K(36).Mul(g.N(len(x.StrongParents)).Add(g.N(len(x.WeakParents))).Add(g.N(len(x.ShallowLikeParents))))).Add(payloadSizeOf(x.Payload))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*Block).Size props=C24 stable opaque=iface:(Sizer).Size
func c_Block_Size(x *Block) {
	g.Requires(x != nil && x.Body != nil && x.Signature != nil && smallSize(x.Body.Size()) && smallSize(x.Signature.Size()))
	g.Ensures(g.N(x.Size()).Eq(g.N(x.Header.Size()).Add(sizeOf(x.Body)).Add(sizeOf(x.Signature))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*TransactionEssence).Size props=C24 stable opaque=iface:(Sizer).Size,(Inputs[T]).Size,(ContextInputs[T]).Size
func c_TransactionEssence_Size(x *TransactionEssence) {
	g.Requires(x != nil && (x.Payload == nil || smallSize(x.Payload.Size())) && smallSize(x.ContextInputs.Size()) && smallSize(x.Inputs.Size()) && len(x.Allotments) <= 1<<20)
	g.Ensures(g.N(x.Size()).Eq(g.K(8+4+2+1+4).Add(g.N(x.ContextInputs.Size())).Add(g.N(x.Inputs.Size())).Add(g.K(40).Mul(g.N(len(x.Allotments)))).Add(g.N(len(x.Capabilities))).Add(payloadSizeOf(x.Payload))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*Transaction).Size props=C24 stable opaque=(*TransactionEssence).Size,(Outputs[T]).Size
func c_Transaction_Size(x *Transaction) {
	g.Requires(x != nil && x.TransactionEssence != nil && smallSize(x.TransactionEssence.Size()) && smallSize(x.Outputs.Size()))
	g.Ensures(g.N(x.Size()).Eq(g.N(x.TransactionEssence.Size()).Add(g.N(x.Outputs.Size()))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(*SignedTransaction).Size props=C24 stable opaque=(*Transaction).Size,(Unlocks).Size
func c_SignedTransaction_Size(x *SignedTransaction) {
	g.Requires(x != nil && x.Transaction != nil && smallSize(x.Transaction.Size()) && smallSize(x.Unlocks.Size()))
	g.Ensures(g.N(x.Size()).Eq(g.K(1).Add(g.N(x.Transaction.Size())).Add(g.N(x.Unlocks.Size()))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:contract target=(UnlockConditions[T]).Size props=C24,C11 stable opaque=iface:(Sizer).Size
func c_UnlockConditions_Size(l UnlockConditions[BasicOutputUnlockCondition]) {
	g.Requires(len(l) <= 1<<20 && g.Forall(0, len(l), func(i int) bool { return l[i] != nil && smallSize(l[i].Size()) }))
	g.Ensures(g.N(l.Size()).Eq(g.K(1).Add(g.Sum(0, len(l), func(i int) g.Int { return sizeOf(l[i]) }))), "the size of a list is that of its length prefix and its elements")
}

//gvc:invariant for=c_UnlockConditions_Size
func inv_UnlockConditions_Size(f UnlockConditions[BasicOutputUnlockCondition], sum int, i int) bool {
	return g.N(sum).Eq(g.K(1).Add(g.Sum(0, i, func(k int) g.Int { return sizeOf(f[k]) }))) && sum >= 0 && sum <= 2+i*(1<<32)
}

//gvc:contract target=(Features[T]).Size props=C24,C11 stable opaque=iface:(Sizer).Size
func c_Features_Size(l Features[BasicOutputFeature]) {
	g.Requires(len(l) <= 1<<20 && g.Forall(0, len(l), func(i int) bool { return l[i] != nil && smallSize(l[i].Size()) }))
	g.Ensures(g.N(l.Size()).Eq(g.K(1).Add(g.Sum(0, len(l), func(i int) g.Int { return sizeOf(l[i]) }))), "the size of a list is that of its length prefix and its elements")
}

//gvc:invariant for=c_Features_Size
func inv_Features_Size(f Features[BasicOutputFeature], sum int, i int) bool {
	return g.N(sum).Eq(g.K(1).Add(g.Sum(0, i, func(k int) g.Int { return sizeOf(f[k]) }))) && sum >= 0 && sum <= 2+i*(1<<32)
}

//gvc:contract target=(BlockIssuerKeys).Size props=C24,C11 stable opaque=iface:(Sizer).Size
func c_BlockIssuerKeys_Size(l BlockIssuerKeys) {
	g.Requires(len(l) <= 1<<20 && g.Forall(0, len(l), func(i int) bool { return l[i] != nil && smallSize(l[i].Size()) }))
	g.Ensures(g.N(l.Size()).Eq(g.K(1).Add(g.Sum(0, len(l), func(i int) g.Int { return sizeOf(l[i]) }))), "the size of a list is that of its length prefix and its elements")
}

//gvc:invariant for=c_BlockIssuerKeys_Size
func inv_BlockIssuerKeys_Size(keys BlockIssuerKeys, size int, i int) bool {
	return g.N(size).Eq(g.K(1).Add(g.Sum(0, i, func(k int) g.Int { return sizeOf(keys[k]) }))) && size >= 0 && size <= 2+i*(1<<32)
}

//gvc:contract target=(Inputs[T]).Size props=C24 stable opaque=iface:(Sizer).Size
func c_Inputs_Size(l TxEssenceInputs) {
	g.Requires(len(l) <= 1<<20 && g.Forall(0, len(l), func(i int) bool { return l[i] != nil && smallSize(l[i].Size()) }))
	g.Ensures(g.N(l.Size()).Eq(g.K(2).Add(g.Sum(0, len(l), func(i int) g.Int { return sizeOf(l[i]) }))), "the size of a list is that of its length prefix and its elements")
}

//gvc:invariant for=c_Inputs_Size
func inv_Inputs_Size(in TxEssenceInputs, sum int, i int) bool {
	return g.N(sum).Eq(g.K(2).Add(g.Sum(0, i, func(k int) g.Int { return sizeOf(in[k]) }))) && sum >= 0 && sum <= 2+i*(1<<32)
}

//gvc:contract target=(ContextInputs[T]).Size props=C24 stable opaque=iface:(Sizer).Size
func c_ContextInputs_Size(l TxEssenceContextInputs) {
	g.Requires(len(l) <= 1<<20 && g.Forall(0, len(l), func(i int) bool { return l[i] != nil && smallSize(l[i].Size()) }))
	g.Ensures(g.N(l.Size()).Eq(g.K(2).Add(g.Sum(0, len(l), func(i int) g.Int { return sizeOf(l[i]) }))), "the size of a list is that of its length prefix and its elements")
}

//gvc:invariant for=c_ContextInputs_Size
func inv_ContextInputs_Size(in TxEssenceContextInputs, sum int, i int) bool {
	return g.N(sum).Eq(g.K(2).Add(g.Sum(0, i, func(k int) g.Int { return sizeOf(in[k]) }))) && sum >= 0 && sum <= 2+i*(1<<32)
}

//gvc:contract target=(Outputs[T]).Size props=C24 stable opaque=iface:(Sizer).Size
func c_Outputs_Size(l TxEssenceOutputs) {
	g.Requires(len(l) <= 1<<20 && g.Forall(0, len(l), func(i int) bool { return l[i] != nil && smallSize(l[i].Size()) }))
	g.Ensures(g.N(l.Size()).Eq(g.K(2).Add(g.Sum(0, len(l), func(i int) g.Int { return sizeOf(l[i]) }))), "the size of a list is that of its length prefix and its elements")
}

//gvc:invariant for=c_Outputs_Size
func inv_Outputs_Size(outputs TxEssenceOutputs, sum int, i int) bool {
	return g.N(sum).Eq(g.K(2).Add(g.Sum(0, i, func(k int) g.Int { return sizeOf(outputs[k]) }))) && sum >= 0 && sum <= 2+i*(1<<32)
}

//gvc:contract target=(Unlocks).Size props=C24 stable opaque=iface:(Sizer).Size
func c_Unlocks_Size(l Unlocks) {
	g.Requires(len(l) <= 1<<20 && g.Forall(0, len(l), func(i int) bool { return l[i] != nil && smallSize(l[i].Size()) }))
	g.Ensures(g.N(l.Size()).Eq(g.K(2).Add(g.Sum(0, len(l), func(i int) g.Int { return sizeOf(l[i]) }))), "the size of a list is that of its length prefix and its elements")
}

//gvc:invariant for=c_Unlocks_Size
func inv_Unlocks_Size(o Unlocks, sum int, i int) bool {
	return g.N(sum).Eq(g.K(2).Add(g.Sum(0, i, func(k int) g.Int { return sizeOf(o[k]) }))) && sum >= 0 && sum <= 2+i*(1<<32)
}

//gvc:contract target=(*MultiAddress).Size props=C24,C11 stable opaque=iface:(Sizer).Size
func c_MultiAddress_Size(x *MultiAddress) {
	g.Requires(x != nil && len(x.Addresses) <= 1<<20 && g.Forall(0, len(x.Addresses), func(i int) bool {
		return x.Addresses[i] != nil && x.Addresses[i].Address != nil && smallSize(x.Addresses[i].Address.Size())
	}))
	g.Ensures(g.N(x.Size()).Eq(g.K(4).Add(g.Sum(0, len(x.Addresses), func(i int) g.Int { return sizeOf(x.Addresses[i].Address).Add(g.K(1)) }))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:invariant for=c_MultiAddress_Size
func inv_MultiAddress_Size(addr *MultiAddress, sum int, i int) bool {
	return g.N(sum).Eq(g.K(4).Add(g.Sum(0, i, func(k int) g.Int { return sizeOf(addr.Addresses[k].Address).Add(g.K(1)) }))) && sum >= 0 && sum <= 4+i*(1<<32+1)
}

//gvc:contract target=(*MultiUnlock).Size props=C24 stable opaque=iface:(Sizer).Size
func c_MultiUnlock_Size(x *MultiUnlock) {
	g.Requires(x != nil && len(x.Unlocks) <= 1<<20 && g.Forall(0, len(x.Unlocks), func(i int) bool { return x.Unlocks[i] != nil && smallSize(x.Unlocks[i].Size()) }))
	g.Ensures(g.N(x.Size()).Eq(g.K(2).Add(g.Sum(0, len(x.Unlocks), func(i int) g.Int { return sizeOf(x.Unlocks[i]) }))), "the size is the sum of the sizes of the parts on the wire")
}

//gvc:invariant for=c_MultiUnlock_Size
func inv_MultiUnlock_Size(u *MultiUnlock, sum int, i int) bool {
	return g.N(sum).Eq(g.K(2).Add(g.Sum(0, i, func(k int) g.Int { return sizeOf(u.Unlocks[k]) }))) && sum >= 0 && sum <= 4+i*(1<<32+1)
}
