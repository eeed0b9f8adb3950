package iotago

import (
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

func sameBytes(a []byte, b []byte) bool {
	return len(a) == len(b) && g.Forall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

//gvc:contract target=(*Ed25519Address).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_Ed25519Address_Clone(a *Ed25519Address) {
	g.Requires(a != nil)
	c, is := a.Clone().(*Ed25519Address)
	g.Ensures(is && c != a && g.New(c), "the copy is a new object")
	g.Ensures(*c == *a, "the copy has the same bytes")
}

//gvc:contract target=(*AccountAddress).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_AccountAddress_Clone(a *AccountAddress) {
	g.Requires(a != nil)
	c, is := a.Clone().(*AccountAddress)
	g.Ensures(is && c != a && g.New(c), "the copy is a new object")
	g.Ensures(*c == *a, "the copy has the same bytes")
}

//gvc:contract target=(*NFTAddress).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_NFTAddress_Clone(a *NFTAddress) {
	g.Requires(a != nil)
	c, is := a.Clone().(*NFTAddress)
	g.Ensures(is && c != a && g.New(c), "the copy is a new object")
	g.Ensures(*c == *a, "the copy has the same bytes")
}

//gvc:contract target=(*AnchorAddress).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_AnchorAddress_Clone(a *AnchorAddress) {
	g.Requires(a != nil)
	c, is := a.Clone().(*AnchorAddress)
	g.Ensures(is && c != a && g.New(c), "the copy is a new object")
	g.Ensures(*c == *a, "the copy has the same bytes")
}

//gvc:contract target=(*ImplicitAccountCreationAddress).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_ImplicitAccountCreationAddress_Clone(a *ImplicitAccountCreationAddress) {
	g.Requires(a != nil)
	c, is := a.Clone().(*ImplicitAccountCreationAddress)
	g.Ensures(is && c != a && g.New(c), "the copy is a new object")
	g.Ensures(*c == *a, "the copy has the same bytes")
}

//gvc:contract target=(*RestrictedAddress).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_RestrictedAddress_Clone(a *RestrictedAddress) {
	g.Requires(a != nil && a.Address != nil)
	c, is := a.Clone().(*RestrictedAddress)
	g.Ensures(is && c != a && g.New(c) && g.New(c.AllowedCapabilities), "the copy is a new object")
	g.Ensures(g.Copied(c.Address, a.Address.Clone(), a.Address), "the address is cloned")
	g.Ensures(sameBytes(c.AllowedCapabilities, a.AllowedCapabilities) && g.Disjoint(c.AllowedCapabilities, a.AllowedCapabilities), "the capabilities are copied")
}

//gvc:contract target=(*MultiAddressReference).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_MultiAddressReference_Clone(a *MultiAddressReference) {
	g.Requires(a != nil)
	c, is := a.Clone().(*MultiAddressReference)
	g.Ensures(is && c != a && g.New(c) && g.New(c.MultiAddressID), "the copy is a new object")
	g.Ensures(sameBytes(c.MultiAddressID, a.MultiAddressID) && g.Disjoint(c.MultiAddressID, a.MultiAddressID), "the identifier is copied")
}

//gvc:contract target=(*MultiAddress).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_MultiAddress_Clone(a *MultiAddress) {
	g.Requires(a != nil && weightedNonNil(a.Addresses))
	c, is := a.Clone().(*MultiAddress)
	g.Ensures(is && c != a && g.New(c) && g.New(c.Addresses) && g.Disjoint(c.Addresses, a.Addresses), "the copy is a new object")
	g.Ensures(c.Threshold == a.Threshold && len(c.Addresses) == len(a.Addresses), "the copy has the same threshold and number of parts")
	g.Ensures(g.Forall(0, len(a.Addresses), func(k int) bool {
		return g.New(c.Addresses[k]) && c.Addresses[k] != a.Addresses[k] && c.Addresses[k].Weight == a.Addresses[k].Weight && g.Copied(c.Addresses[k].Address, a.Addresses[k].Address.Clone(), a.Addresses[k].Address)
	}), "every part is cloned")
}

//gvc:invariant for=c_MultiAddress_Clone
func inv_Clone_MultiAddress(addr *MultiAddress, cpy *MultiAddress, i int) bool {
	return g.Forall(0, i, func(k int) bool {
		return g.New(cpy.Addresses[k]) && cpy.Addresses[k] != addr.Addresses[k] && cpy.Addresses[k].Weight == addr.Addresses[k].Weight && g.Copied(cpy.Addresses[k].Address, addr.Addresses[k].Address.Clone(), addr.Addresses[k].Address)
	})
}

//gvc:contract target=(*AddressUnlockCondition).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_AddressUnlockCondition_Clone(o *AddressUnlockCondition) {
	g.Requires(o != nil)
	g.Requires(o.Address != nil)
	c, is := o.Clone().(*AddressUnlockCondition)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(g.Copied(c.Address, o.Address.Clone(), o.Address), "the parts are cloned")
}

//gvc:contract target=(*ExpirationUnlockCondition).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_ExpirationUnlockCondition_Clone(o *ExpirationUnlockCondition) {
	g.Requires(o != nil)
	g.Requires(o.ReturnAddress != nil)
	c, is := o.Clone().(*ExpirationUnlockCondition)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.Slot == o.Slot, "the copy has the same values")
	g.Ensures(g.Copied(c.ReturnAddress, o.ReturnAddress.Clone(), o.ReturnAddress), "the parts are cloned")
}

//gvc:contract target=(*GovernorAddressUnlockCondition).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_GovernorAddressUnlockCondition_Clone(o *GovernorAddressUnlockCondition) {
	g.Requires(o != nil)
	g.Requires(o.Address != nil)
	c, is := o.Clone().(*GovernorAddressUnlockCondition)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(g.Copied(c.Address, o.Address.Clone(), o.Address), "the parts are cloned")
}

//gvc:contract target=(*StateControllerAddressUnlockCondition).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_StateControllerAddressUnlockCondition_Clone(o *StateControllerAddressUnlockCondition) {
	g.Requires(o != nil)
	g.Requires(o.Address != nil)
	c, is := o.Clone().(*StateControllerAddressUnlockCondition)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(g.Copied(c.Address, o.Address.Clone(), o.Address), "the parts are cloned")
}

//gvc:contract target=(*StorageDepositReturnUnlockCondition).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_StorageDepositReturnUnlockCondition_Clone(o *StorageDepositReturnUnlockCondition) {
	g.Requires(o != nil)
	g.Requires(o.ReturnAddress != nil)
	c, is := o.Clone().(*StorageDepositReturnUnlockCondition)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.Amount == o.Amount, "the copy has the same values")
	g.Ensures(g.Copied(c.ReturnAddress, o.ReturnAddress.Clone(), o.ReturnAddress), "the parts are cloned")
}

//gvc:contract target=(*TimelockUnlockCondition).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_TimelockUnlockCondition_Clone(o *TimelockUnlockCondition) {
	g.Requires(o != nil)
	c, is := o.Clone().(*TimelockUnlockCondition)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.Slot == o.Slot, "the copy has the same values")
}

//gvc:contract target=(*IssuerFeature).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_IssuerFeature_Clone(o *IssuerFeature) {
	g.Requires(o != nil)
	g.Requires(o.Address != nil)
	c, is := o.Clone().(*IssuerFeature)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(g.Copied(c.Address, o.Address.Clone(), o.Address), "the parts are cloned")
}

//gvc:contract target=(*SenderFeature).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_SenderFeature_Clone(o *SenderFeature) {
	g.Requires(o != nil)
	g.Requires(o.Address != nil)
	c, is := o.Clone().(*SenderFeature)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(g.Copied(c.Address, o.Address.Clone(), o.Address), "the parts are cloned")
}

//gvc:contract target=(*StakingFeature).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_StakingFeature_Clone(o *StakingFeature) {
	g.Requires(o != nil)
	c, is := o.Clone().(*StakingFeature)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.StakedAmount == o.StakedAmount && c.FixedCost == o.FixedCost && c.StartEpoch == o.StartEpoch && c.EndEpoch == o.EndEpoch, "the copy has the same values")
}

//gvc:contract target=(*UTXOInput).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_UTXOInput_Clone(o *UTXOInput) {
	g.Requires(o != nil)
	c, is := o.Clone().(*UTXOInput)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.TransactionID == o.TransactionID && c.TransactionOutputIndex == o.TransactionOutputIndex, "the copy has the same values")
}

//gvc:contract target=(*BlockIssuanceCreditInput).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_BlockIssuanceCreditInput_Clone(o *BlockIssuanceCreditInput) {
	g.Requires(o != nil)
	c, is := o.Clone().(*BlockIssuanceCreditInput)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.AccountID == o.AccountID, "the copy has the same values")
}

//gvc:contract target=(*CommitmentInput).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_CommitmentInput_Clone(o *CommitmentInput) {
	g.Requires(o != nil)
	c, is := o.Clone().(*CommitmentInput)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.CommitmentID == o.CommitmentID, "the copy has the same values")
}

//gvc:contract target=(*RewardInput).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_RewardInput_Clone(o *RewardInput) {
	g.Requires(o != nil)
	c, is := o.Clone().(*RewardInput)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.Index == o.Index, "the copy has the same values")
}

//gvc:contract target=(*AccountUnlock).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_AccountUnlock_Clone(o *AccountUnlock) {
	g.Requires(o != nil)
	c, is := o.Clone().(*AccountUnlock)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.Reference == o.Reference, "the copy has the same values")
}

//gvc:contract target=(*AnchorUnlock).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_AnchorUnlock_Clone(o *AnchorUnlock) {
	g.Requires(o != nil)
	c, is := o.Clone().(*AnchorUnlock)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.Reference == o.Reference, "the copy has the same values")
}

//gvc:contract target=(*NFTUnlock).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_NFTUnlock_Clone(o *NFTUnlock) {
	g.Requires(o != nil)
	c, is := o.Clone().(*NFTUnlock)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.Reference == o.Reference, "the copy has the same values")
}

//gvc:contract target=(*ReferenceUnlock).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_ReferenceUnlock_Clone(o *ReferenceUnlock) {
	g.Requires(o != nil)
	c, is := o.Clone().(*ReferenceUnlock)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.Reference == o.Reference, "the copy has the same values")
}

//gvc:contract target=(*SignatureUnlock).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_SignatureUnlock_Clone(o *SignatureUnlock) {
	g.Requires(o != nil)
	g.Requires(o.Signature != nil)
	c, is := o.Clone().(*SignatureUnlock)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(g.Copied(c.Signature, o.Signature.Clone(), o.Signature), "the parts are cloned")
}

//gvc:contract target=(*Ed25519Signature).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_Ed25519Signature_Clone(o *Ed25519Signature) {
	g.Requires(o != nil)
	c, is := o.Clone().(*Ed25519Signature)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.PublicKey == o.PublicKey && c.Signature == o.Signature, "the copy has the same values")
}

//gvc:contract target=(*Ed25519PublicKeyHashBlockIssuerKey).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_Ed25519PublicKeyHashBlockIssuerKey_Clone(o *Ed25519PublicKeyHashBlockIssuerKey) {
	g.Requires(o != nil)
	c, is := o.Clone().(*Ed25519PublicKeyHashBlockIssuerKey)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.PublicKeyHash == o.PublicKeyHash, "the copy has the same values")
}

//gvc:contract target=(*ImmutableAccountUnlockCondition).Clone props=C19 stable opaque=iface:Clone()Feature
func c_ImmutableAccountUnlockCondition_Clone(o *ImmutableAccountUnlockCondition) {
	g.Requires(o != nil && o.Address != nil)
	c, is := o.Clone().(*ImmutableAccountUnlockCondition)
	g.Ensures(is && c != o && g.New(c) && c.Address != o.Address && g.New(c.Address), "the copy is a new object")
	g.Ensures(*c.Address == *o.Address, "the address is copied")
}

//gvc:contract target=(*Allotment).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_Allotment_Clone(o *Allotment) {
	g.Requires(o != nil)
	c := o.Clone()
	g.Ensures(c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.AccountID == o.AccountID && c.Mana == o.Mana, "the copy has the same values")
}

//gvc:contract target=(*TagFeature).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_TagFeature_Clone(o *TagFeature) {
	g.Requires(o != nil)
	c, is := o.Clone().(*TagFeature)
	g.Ensures(is && c != o && g.New(c) && g.New(c.Tag) && g.Disjoint(c.Tag, o.Tag), "the copy is a new object")
	g.Ensures(sameBytes(c.Tag, o.Tag), "the tag is copied")
}

//gvc:contract target=(*TaggedData).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_TaggedData_Clone(o *TaggedData) {
	g.Requires(o != nil)
	c, is := o.Clone().(*TaggedData)
	g.Ensures(is && c != o && g.New(c) && g.New(c.Tag) && g.Disjoint(c.Tag, o.Tag) && g.New(c.Data) && g.Disjoint(c.Data, o.Data), "the copy is a new object")
	g.Ensures(sameBytes(c.Tag, o.Tag) && sameBytes(c.Data, o.Data), "the contents are copied")
}

//gvc:contract target=(*NativeTokenFeature).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_NativeTokenFeature_Clone(o *NativeTokenFeature) {
	g.Requires(o != nil && o.Amount != nil)
	c, is := o.Clone().(*NativeTokenFeature)
	g.Ensures(is && c != o && g.New(c) && c.Amount != o.Amount && g.New(c.Amount), "the copy is a new object")
	g.Ensures(c.ID == o.ID && g.Big(c.Amount).Eq(g.Big(o.Amount)), "the copy has the same token and amount")
}

//gvc:contract target=(*SimpleTokenScheme).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_SimpleTokenScheme_Clone(o *SimpleTokenScheme) {
	g.Requires(o != nil && o.MintedTokens != nil && o.MeltedTokens != nil && o.MaximumSupply != nil)
	c, is := o.Clone().(*SimpleTokenScheme)
	g.Ensures(is && c != o && g.New(c) && c.MintedTokens != o.MintedTokens && g.New(c.MintedTokens) && c.MeltedTokens != o.MeltedTokens && g.New(c.MeltedTokens) && c.MaximumSupply != o.MaximumSupply && g.New(c.MaximumSupply), "the copy is a new object")
	g.Ensures(g.Big(c.MintedTokens).Eq(g.Big(o.MintedTokens)) && g.Big(c.MeltedTokens).Eq(g.Big(o.MeltedTokens)) && g.Big(c.MaximumSupply).Eq(g.Big(o.MaximumSupply)), "the copy has the same numbers")
	g.Ensures(c.MintedTokens != c.MeltedTokens && c.MintedTokens != c.MaximumSupply && c.MeltedTokens != c.MaximumSupply, "the numbers of the copy are separate")
}

//gvc:contract target=(MetadataFeature).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_MetadataFeature_Clone(o MetadataFeature) {
	c, is := o.Clone().(*MetadataFeature)
	g.Ensures(is && g.New(c) && g.New(c.Entries) && !g.Same(c.Entries, o.Entries), "the copy is a new object")
	g.Ensures(g.ForallMap(c.Entries, func(k MetadataFeatureEntriesKey, v MetadataFeatureEntriesValue) bool {
		w, has := o.Entries[k]
		return has && sameBytes(v, w) && g.New(v) && g.Disjoint(v, w)
	}), "every entry of the copy is a copy of an entry")
	g.Ensures(g.ForallMap(o.Entries, func(k MetadataFeatureEntriesKey, v MetadataFeatureEntriesValue) bool {
		_, has := c.Entries[k]
		return has
	}), "every entry is copied")
}

//gvc:invariant for=c_MetadataFeature_Clone
func inv_Clone_MetadataFeature1(copiedMap MetadataFeatureEntries, m MetadataFeature) bool {
	return g.ForallMap(copiedMap, func(k MetadataFeatureEntriesKey, v MetadataFeatureEntriesValue) bool {
		w, has := m.Entries[k]
		return has && sameBytes(v, w) && g.New(v) && g.Disjoint(v, w)
	})
}

//gvc:invariant for=c_MetadataFeature_Clone
func inv_Clone_MetadataFeature2(copiedMap MetadataFeatureEntries, m MetadataFeature) bool {
	return g.VisitedForall(m.Entries, func(k MetadataFeatureEntriesKey, v MetadataFeatureEntriesValue) bool {
		_, has := copiedMap[k]
		return has
	})
}

//gvc:contract target=(StateMetadataFeature).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_StateMetadataFeature_Clone(o StateMetadataFeature) {
	c, is := o.Clone().(*StateMetadataFeature)
	g.Ensures(is && g.New(c) && g.New(c.Entries) && !g.Same(c.Entries, o.Entries), "the copy is a new object")
	g.Ensures(g.ForallMap(c.Entries, func(k StateMetadataFeatureEntriesKey, v StateMetadataFeatureEntriesValue) bool {
		w, has := o.Entries[k]
		return has && sameBytes(v, w) && g.New(v) && g.Disjoint(v, w)
	}), "every entry of the copy is a copy of an entry")
	g.Ensures(g.ForallMap(o.Entries, func(k StateMetadataFeatureEntriesKey, v StateMetadataFeatureEntriesValue) bool {
		_, has := c.Entries[k]
		return has
	}), "every entry is copied")
}

//gvc:invariant for=c_StateMetadataFeature_Clone
func inv_Clone_StateMetadataFeature1(copiedMap StateMetadataFeatureEntries, m StateMetadataFeature) bool {
	return g.ForallMap(copiedMap, func(k StateMetadataFeatureEntriesKey, v StateMetadataFeatureEntriesValue) bool {
		w, has := m.Entries[k]
		return has && sameBytes(v, w) && g.New(v) && g.Disjoint(v, w)
	})
}

//gvc:invariant for=c_StateMetadataFeature_Clone
func inv_Clone_StateMetadataFeature2(copiedMap StateMetadataFeatureEntries, m StateMetadataFeature) bool {
	return g.VisitedForall(m.Entries, func(k StateMetadataFeatureEntriesKey, v StateMetadataFeatureEntriesValue) bool {
		_, has := copiedMap[k]
		return has
	})
}

//gvc:invariant for=c_BasicOutput_Clone
func inv_Clone_BasicOutput_UnlockConditions(f UnlockConditions[BasicOutputUnlockCondition], cpy UnlockConditions[BasicOutputUnlockCondition], i int) bool {
	return len(cpy) == len(f) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], f[k].Clone(), f[k]) })
}

//gvc:invariant for=c_BasicOutput_Clone
func inv_Clone_BasicOutput_UnlockConditions_own(o *BasicOutput, cpy UnlockConditions[BasicOutputUnlockCondition], i int) bool {
	return len(cpy) == len(o.UnlockConditions) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.UnlockConditions[k].Clone(), o.UnlockConditions[k]) })
}

//gvc:invariant for=c_BasicOutput_Clone
func inv_Clone_BasicOutput_UnlockConditions_grown(o *BasicOutput, cpy UnlockConditions[BasicOutputUnlockCondition], i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.UnlockConditions[k].Clone(), o.UnlockConditions[k]) })
}

//gvc:invariant for=c_BasicOutput_Clone
func inv_Clone_BasicOutput_Features(f Features[BasicOutputFeature], cpy Features[BasicOutputFeature], i int) bool {
	return len(cpy) == len(f) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], f[k].Clone(), f[k]) })
}

//gvc:invariant for=c_BasicOutput_Clone
func inv_Clone_BasicOutput_Features_own(o *BasicOutput, cpy Features[BasicOutputFeature], i int) bool {
	return len(cpy) == len(o.Features) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.Features[k].Clone(), o.Features[k]) })
}

//gvc:invariant for=c_BasicOutput_Clone
func inv_Clone_BasicOutput_Features_grown(o *BasicOutput, cpy Features[BasicOutputFeature], i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.Features[k].Clone(), o.Features[k]) })
}

//gvc:contract target=(*BasicOutput).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_BasicOutput_Clone(o *BasicOutput) {
	g.Requires(o != nil)
	g.Requires(g.Forall(0, len(o.UnlockConditions), func(k int) bool { return o.UnlockConditions[k] != nil }))
	g.Requires(g.Forall(0, len(o.Features), func(k int) bool { return o.Features[k] != nil }))
	c, is := o.Clone().(*BasicOutput)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.Amount == o.Amount && c.Mana == o.Mana, "the copy has the same values")
	g.Ensures(len(c.UnlockConditions) == len(o.UnlockConditions) && g.New(c.UnlockConditions) && g.Disjoint(c.UnlockConditions, o.UnlockConditions), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.UnlockConditions), func(k int) bool {
		return g.Copied(c.UnlockConditions[k], o.UnlockConditions[k].Clone(), o.UnlockConditions[k])
	}), "the elements of lists are cloned")
	g.Ensures(len(c.Features) == len(o.Features) && g.New(c.Features) && g.Disjoint(c.Features, o.Features), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.Features), func(k int) bool { return g.Copied(c.Features[k], o.Features[k].Clone(), o.Features[k]) }), "the elements of lists are cloned")
}

//gvc:invariant for=c_AccountOutput_Clone
func inv_Clone_AccountOutput_UnlockConditions(f UnlockConditions[AccountOutputUnlockCondition], cpy UnlockConditions[AccountOutputUnlockCondition], i int) bool {
	return len(cpy) == len(f) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], f[k].Clone(), f[k]) })
}

//gvc:invariant for=c_AccountOutput_Clone
func inv_Clone_AccountOutput_UnlockConditions_own(o *AccountOutput, cpy UnlockConditions[AccountOutputUnlockCondition], i int) bool {
	return len(cpy) == len(o.UnlockConditions) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.UnlockConditions[k].Clone(), o.UnlockConditions[k]) })
}

//gvc:invariant for=c_AccountOutput_Clone
func inv_Clone_AccountOutput_UnlockConditions_grown(o *AccountOutput, cpy UnlockConditions[AccountOutputUnlockCondition], i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.UnlockConditions[k].Clone(), o.UnlockConditions[k]) })
}

//gvc:invariant for=c_AccountOutput_Clone
func inv_Clone_AccountOutput_Features(f Features[AccountOutputFeature], cpy Features[AccountOutputFeature], i int) bool {
	return len(cpy) == len(f) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], f[k].Clone(), f[k]) })
}

//gvc:invariant for=c_AccountOutput_Clone
func inv_Clone_AccountOutput_Features_own(o *AccountOutput, cpy Features[AccountOutputFeature], i int) bool {
	return len(cpy) == len(o.Features) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.Features[k].Clone(), o.Features[k]) })
}

//gvc:invariant for=c_AccountOutput_Clone
func inv_Clone_AccountOutput_Features_grown(o *AccountOutput, cpy Features[AccountOutputFeature], i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.Features[k].Clone(), o.Features[k]) })
}

//gvc:invariant for=c_AccountOutput_Clone
func inv_Clone_AccountOutput_ImmutableFeatures(f Features[AccountOutputImmFeature], cpy Features[AccountOutputImmFeature], i int) bool {
	return len(cpy) == len(f) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], f[k].Clone(), f[k]) })
}

//gvc:invariant for=c_AccountOutput_Clone
func inv_Clone_AccountOutput_ImmutableFeatures_own(o *AccountOutput, cpy Features[AccountOutputImmFeature], i int) bool {
	return len(cpy) == len(o.ImmutableFeatures) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.ImmutableFeatures[k].Clone(), o.ImmutableFeatures[k]) })
}

//gvc:invariant for=c_AccountOutput_Clone
func inv_Clone_AccountOutput_ImmutableFeatures_grown(o *AccountOutput, cpy Features[AccountOutputImmFeature], i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.ImmutableFeatures[k].Clone(), o.ImmutableFeatures[k]) })
}

//gvc:contract target=(*AccountOutput).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_AccountOutput_Clone(o *AccountOutput) {
	g.Requires(o != nil)
	g.Requires(g.Forall(0, len(o.UnlockConditions), func(k int) bool { return o.UnlockConditions[k] != nil }))
	g.Requires(g.Forall(0, len(o.Features), func(k int) bool { return o.Features[k] != nil }))
	g.Requires(g.Forall(0, len(o.ImmutableFeatures), func(k int) bool { return o.ImmutableFeatures[k] != nil }))
	c, is := o.Clone().(*AccountOutput)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.Amount == o.Amount && c.Mana == o.Mana && c.AccountID == o.AccountID && c.FoundryCounter == o.FoundryCounter, "the copy has the same values")
	g.Ensures(len(c.UnlockConditions) == len(o.UnlockConditions) && g.New(c.UnlockConditions) && g.Disjoint(c.UnlockConditions, o.UnlockConditions), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.UnlockConditions), func(k int) bool {
		return g.Copied(c.UnlockConditions[k], o.UnlockConditions[k].Clone(), o.UnlockConditions[k])
	}), "the elements of lists are cloned")
	g.Ensures(len(c.Features) == len(o.Features) && g.New(c.Features) && g.Disjoint(c.Features, o.Features), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.Features), func(k int) bool { return g.Copied(c.Features[k], o.Features[k].Clone(), o.Features[k]) }), "the elements of lists are cloned")
	g.Ensures(len(c.ImmutableFeatures) == len(o.ImmutableFeatures) && g.New(c.ImmutableFeatures) && g.Disjoint(c.ImmutableFeatures, o.ImmutableFeatures), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.ImmutableFeatures), func(k int) bool {
		return g.Copied(c.ImmutableFeatures[k], o.ImmutableFeatures[k].Clone(), o.ImmutableFeatures[k])
	}), "the elements of lists are cloned")
}

//gvc:invariant for=c_AnchorOutput_Clone
func inv_Clone_AnchorOutput_UnlockConditions(f UnlockConditions[AnchorOutputUnlockCondition], cpy UnlockConditions[AnchorOutputUnlockCondition], i int) bool {
	return len(cpy) == len(f) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], f[k].Clone(), f[k]) })
}

//gvc:invariant for=c_AnchorOutput_Clone
func inv_Clone_AnchorOutput_UnlockConditions_own(o *AnchorOutput, cpy UnlockConditions[AnchorOutputUnlockCondition], i int) bool {
	return len(cpy) == len(o.UnlockConditions) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.UnlockConditions[k].Clone(), o.UnlockConditions[k]) })
}

//gvc:invariant for=c_AnchorOutput_Clone
func inv_Clone_AnchorOutput_UnlockConditions_grown(o *AnchorOutput, cpy UnlockConditions[AnchorOutputUnlockCondition], i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.UnlockConditions[k].Clone(), o.UnlockConditions[k]) })
}

//gvc:invariant for=c_AnchorOutput_Clone
func inv_Clone_AnchorOutput_Features(f Features[AnchorOutputFeature], cpy Features[AnchorOutputFeature], i int) bool {
	return len(cpy) == len(f) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], f[k].Clone(), f[k]) })
}

//gvc:invariant for=c_AnchorOutput_Clone
func inv_Clone_AnchorOutput_Features_own(o *AnchorOutput, cpy Features[AnchorOutputFeature], i int) bool {
	return len(cpy) == len(o.Features) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.Features[k].Clone(), o.Features[k]) })
}

//gvc:invariant for=c_AnchorOutput_Clone
func inv_Clone_AnchorOutput_Features_grown(o *AnchorOutput, cpy Features[AnchorOutputFeature], i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.Features[k].Clone(), o.Features[k]) })
}

//gvc:invariant for=c_AnchorOutput_Clone
func inv_Clone_AnchorOutput_ImmutableFeatures(f Features[AnchorOutputImmFeature], cpy Features[AnchorOutputImmFeature], i int) bool {
	return len(cpy) == len(f) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], f[k].Clone(), f[k]) })
}

//gvc:invariant for=c_AnchorOutput_Clone
func inv_Clone_AnchorOutput_ImmutableFeatures_own(o *AnchorOutput, cpy Features[AnchorOutputImmFeature], i int) bool {
	return len(cpy) == len(o.ImmutableFeatures) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.ImmutableFeatures[k].Clone(), o.ImmutableFeatures[k]) })
}

//gvc:invariant for=c_AnchorOutput_Clone
func inv_Clone_AnchorOutput_ImmutableFeatures_grown(o *AnchorOutput, cpy Features[AnchorOutputImmFeature], i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.ImmutableFeatures[k].Clone(), o.ImmutableFeatures[k]) })
}

//gvc:contract target=(*AnchorOutput).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_AnchorOutput_Clone(o *AnchorOutput) {
	g.Requires(o != nil)
	g.Requires(g.Forall(0, len(o.UnlockConditions), func(k int) bool { return o.UnlockConditions[k] != nil }))
	g.Requires(g.Forall(0, len(o.Features), func(k int) bool { return o.Features[k] != nil }))
	g.Requires(g.Forall(0, len(o.ImmutableFeatures), func(k int) bool { return o.ImmutableFeatures[k] != nil }))
	c, is := o.Clone().(*AnchorOutput)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.Amount == o.Amount && c.Mana == o.Mana && c.AnchorID == o.AnchorID && c.StateIndex == o.StateIndex, "the copy has the same values")
	g.Ensures(len(c.UnlockConditions) == len(o.UnlockConditions) && g.New(c.UnlockConditions) && g.Disjoint(c.UnlockConditions, o.UnlockConditions), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.UnlockConditions), func(k int) bool {
		return g.Copied(c.UnlockConditions[k], o.UnlockConditions[k].Clone(), o.UnlockConditions[k])
	}), "the elements of lists are cloned")
	g.Ensures(len(c.Features) == len(o.Features) && g.New(c.Features) && g.Disjoint(c.Features, o.Features), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.Features), func(k int) bool { return g.Copied(c.Features[k], o.Features[k].Clone(), o.Features[k]) }), "the elements of lists are cloned")
	g.Ensures(len(c.ImmutableFeatures) == len(o.ImmutableFeatures) && g.New(c.ImmutableFeatures) && g.Disjoint(c.ImmutableFeatures, o.ImmutableFeatures), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.ImmutableFeatures), func(k int) bool {
		return g.Copied(c.ImmutableFeatures[k], o.ImmutableFeatures[k].Clone(), o.ImmutableFeatures[k])
	}), "the elements of lists are cloned")
}

//gvc:invariant for=c_FoundryOutput_Clone
func inv_Clone_FoundryOutput_UnlockConditions(f UnlockConditions[FoundryOutputUnlockCondition], cpy UnlockConditions[FoundryOutputUnlockCondition], i int) bool {
	return len(cpy) == len(f) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], f[k].Clone(), f[k]) })
}

//gvc:invariant for=c_FoundryOutput_Clone
func inv_Clone_FoundryOutput_UnlockConditions_own(o *FoundryOutput, cpy UnlockConditions[FoundryOutputUnlockCondition], i int) bool {
	return len(cpy) == len(o.UnlockConditions) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.UnlockConditions[k].Clone(), o.UnlockConditions[k]) })
}

//gvc:invariant for=c_FoundryOutput_Clone
func inv_Clone_FoundryOutput_UnlockConditions_grown(o *FoundryOutput, cpy UnlockConditions[FoundryOutputUnlockCondition], i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.UnlockConditions[k].Clone(), o.UnlockConditions[k]) })
}

//gvc:invariant for=c_FoundryOutput_Clone
func inv_Clone_FoundryOutput_Features(f Features[FoundryOutputFeature], cpy Features[FoundryOutputFeature], i int) bool {
	return len(cpy) == len(f) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], f[k].Clone(), f[k]) })
}

//gvc:invariant for=c_FoundryOutput_Clone
func inv_Clone_FoundryOutput_Features_own(o *FoundryOutput, cpy Features[FoundryOutputFeature], i int) bool {
	return len(cpy) == len(o.Features) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.Features[k].Clone(), o.Features[k]) })
}

//gvc:invariant for=c_FoundryOutput_Clone
func inv_Clone_FoundryOutput_Features_grown(o *FoundryOutput, cpy Features[FoundryOutputFeature], i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.Features[k].Clone(), o.Features[k]) })
}

//gvc:invariant for=c_FoundryOutput_Clone
func inv_Clone_FoundryOutput_ImmutableFeatures(f Features[FoundryOutputImmFeature], cpy Features[FoundryOutputImmFeature], i int) bool {
	return len(cpy) == len(f) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], f[k].Clone(), f[k]) })
}

//gvc:invariant for=c_FoundryOutput_Clone
func inv_Clone_FoundryOutput_ImmutableFeatures_own(o *FoundryOutput, cpy Features[FoundryOutputImmFeature], i int) bool {
	return len(cpy) == len(o.ImmutableFeatures) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.ImmutableFeatures[k].Clone(), o.ImmutableFeatures[k]) })
}

//gvc:invariant for=c_FoundryOutput_Clone
func inv_Clone_FoundryOutput_ImmutableFeatures_grown(o *FoundryOutput, cpy Features[FoundryOutputImmFeature], i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.ImmutableFeatures[k].Clone(), o.ImmutableFeatures[k]) })
}

//gvc:contract target=(*FoundryOutput).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_FoundryOutput_Clone(o *FoundryOutput) {
	g.Requires(o != nil)
	g.Requires(o.TokenScheme != nil)
	g.Requires(g.Forall(0, len(o.UnlockConditions), func(k int) bool { return o.UnlockConditions[k] != nil }))
	g.Requires(g.Forall(0, len(o.Features), func(k int) bool { return o.Features[k] != nil }))
	g.Requires(g.Forall(0, len(o.ImmutableFeatures), func(k int) bool { return o.ImmutableFeatures[k] != nil }))
	c, is := o.Clone().(*FoundryOutput)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.Amount == o.Amount && c.SerialNumber == o.SerialNumber, "the copy has the same values")
	g.Ensures(g.Copied(c.TokenScheme, o.TokenScheme.Clone(), o.TokenScheme), "the parts are cloned")
	g.Ensures(len(c.UnlockConditions) == len(o.UnlockConditions) && g.New(c.UnlockConditions) && g.Disjoint(c.UnlockConditions, o.UnlockConditions), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.UnlockConditions), func(k int) bool {
		return g.Copied(c.UnlockConditions[k], o.UnlockConditions[k].Clone(), o.UnlockConditions[k])
	}), "the elements of lists are cloned")
	g.Ensures(len(c.Features) == len(o.Features) && g.New(c.Features) && g.Disjoint(c.Features, o.Features), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.Features), func(k int) bool { return g.Copied(c.Features[k], o.Features[k].Clone(), o.Features[k]) }), "the elements of lists are cloned")
	g.Ensures(len(c.ImmutableFeatures) == len(o.ImmutableFeatures) && g.New(c.ImmutableFeatures) && g.Disjoint(c.ImmutableFeatures, o.ImmutableFeatures), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.ImmutableFeatures), func(k int) bool {
		return g.Copied(c.ImmutableFeatures[k], o.ImmutableFeatures[k].Clone(), o.ImmutableFeatures[k])
	}), "the elements of lists are cloned")
}

//gvc:invariant for=c_NFTOutput_Clone
func inv_Clone_NFTOutput_UnlockConditions(f UnlockConditions[NFTOutputUnlockCondition], cpy UnlockConditions[NFTOutputUnlockCondition], i int) bool {
	return len(cpy) == len(f) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], f[k].Clone(), f[k]) })
}

//gvc:invariant for=c_NFTOutput_Clone
func inv_Clone_NFTOutput_UnlockConditions_own(o *NFTOutput, cpy UnlockConditions[NFTOutputUnlockCondition], i int) bool {
	return len(cpy) == len(o.UnlockConditions) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.UnlockConditions[k].Clone(), o.UnlockConditions[k]) })
}

//gvc:invariant for=c_NFTOutput_Clone
func inv_Clone_NFTOutput_UnlockConditions_grown(o *NFTOutput, cpy UnlockConditions[NFTOutputUnlockCondition], i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.UnlockConditions[k].Clone(), o.UnlockConditions[k]) })
}

//gvc:invariant for=c_NFTOutput_Clone
func inv_Clone_NFTOutput_Features(f Features[NFTOutputFeature], cpy Features[NFTOutputFeature], i int) bool {
	return len(cpy) == len(f) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], f[k].Clone(), f[k]) })
}

//gvc:invariant for=c_NFTOutput_Clone
func inv_Clone_NFTOutput_Features_own(o *NFTOutput, cpy Features[NFTOutputFeature], i int) bool {
	return len(cpy) == len(o.Features) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.Features[k].Clone(), o.Features[k]) })
}

//gvc:invariant for=c_NFTOutput_Clone
func inv_Clone_NFTOutput_Features_grown(o *NFTOutput, cpy Features[NFTOutputFeature], i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.Features[k].Clone(), o.Features[k]) })
}

//gvc:invariant for=c_NFTOutput_Clone
func inv_Clone_NFTOutput_ImmutableFeatures(f Features[NFTOutputImmFeature], cpy Features[NFTOutputImmFeature], i int) bool {
	return len(cpy) == len(f) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], f[k].Clone(), f[k]) })
}

//gvc:invariant for=c_NFTOutput_Clone
func inv_Clone_NFTOutput_ImmutableFeatures_own(o *NFTOutput, cpy Features[NFTOutputImmFeature], i int) bool {
	return len(cpy) == len(o.ImmutableFeatures) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.ImmutableFeatures[k].Clone(), o.ImmutableFeatures[k]) })
}

//gvc:invariant for=c_NFTOutput_Clone
func inv_Clone_NFTOutput_ImmutableFeatures_grown(o *NFTOutput, cpy Features[NFTOutputImmFeature], i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.ImmutableFeatures[k].Clone(), o.ImmutableFeatures[k]) })
}

//gvc:contract target=(*NFTOutput).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_NFTOutput_Clone(o *NFTOutput) {
	g.Requires(o != nil)
	g.Requires(g.Forall(0, len(o.UnlockConditions), func(k int) bool { return o.UnlockConditions[k] != nil }))
	g.Requires(g.Forall(0, len(o.Features), func(k int) bool { return o.Features[k] != nil }))
	g.Requires(g.Forall(0, len(o.ImmutableFeatures), func(k int) bool { return o.ImmutableFeatures[k] != nil }))
	c, is := o.Clone().(*NFTOutput)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.Amount == o.Amount && c.Mana == o.Mana && c.NFTID == o.NFTID, "the copy has the same values")
	g.Ensures(len(c.UnlockConditions) == len(o.UnlockConditions) && g.New(c.UnlockConditions) && g.Disjoint(c.UnlockConditions, o.UnlockConditions), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.UnlockConditions), func(k int) bool {
		return g.Copied(c.UnlockConditions[k], o.UnlockConditions[k].Clone(), o.UnlockConditions[k])
	}), "the elements of lists are cloned")
	g.Ensures(len(c.Features) == len(o.Features) && g.New(c.Features) && g.Disjoint(c.Features, o.Features), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.Features), func(k int) bool { return g.Copied(c.Features[k], o.Features[k].Clone(), o.Features[k]) }), "the elements of lists are cloned")
	g.Ensures(len(c.ImmutableFeatures) == len(o.ImmutableFeatures) && g.New(c.ImmutableFeatures) && g.Disjoint(c.ImmutableFeatures, o.ImmutableFeatures), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.ImmutableFeatures), func(k int) bool {
		return g.Copied(c.ImmutableFeatures[k], o.ImmutableFeatures[k].Clone(), o.ImmutableFeatures[k])
	}), "the elements of lists are cloned")
}

//gvc:invariant for=c_DelegationOutput_Clone
func inv_Clone_DelegationOutput_UnlockConditions(f UnlockConditions[DelegationOutputUnlockCondition], cpy UnlockConditions[DelegationOutputUnlockCondition], i int) bool {
	return len(cpy) == len(f) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], f[k].Clone(), f[k]) })
}

//gvc:invariant for=c_DelegationOutput_Clone
func inv_Clone_DelegationOutput_UnlockConditions_own(o *DelegationOutput, cpy UnlockConditions[DelegationOutputUnlockCondition], i int) bool {
	return len(cpy) == len(o.UnlockConditions) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.UnlockConditions[k].Clone(), o.UnlockConditions[k]) })
}

//gvc:invariant for=c_DelegationOutput_Clone
func inv_Clone_DelegationOutput_UnlockConditions_grown(o *DelegationOutput, cpy UnlockConditions[DelegationOutputUnlockCondition], i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.UnlockConditions[k].Clone(), o.UnlockConditions[k]) })
}

//gvc:contract target=(*DelegationOutput).Clone props=C19 stable opaque=iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_DelegationOutput_Clone(o *DelegationOutput) {
	g.Requires(o != nil)
	g.Requires(o.ValidatorAddress != nil)
	g.Requires(g.Forall(0, len(o.UnlockConditions), func(k int) bool { return o.UnlockConditions[k] != nil }))
	c, is := o.Clone().(*DelegationOutput)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.Amount == o.Amount && c.DelegatedAmount == o.DelegatedAmount && c.DelegationID == o.DelegationID && c.StartEpoch == o.StartEpoch && c.EndEpoch == o.EndEpoch, "the copy has the same values")
	g.Ensures(len(c.UnlockConditions) == len(o.UnlockConditions) && g.New(c.UnlockConditions) && g.Disjoint(c.UnlockConditions, o.UnlockConditions), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.UnlockConditions), func(k int) bool {
		return g.Copied(c.UnlockConditions[k], o.UnlockConditions[k].Clone(), o.UnlockConditions[k])
	}), "the elements of lists are cloned")
	g.Ensures(c.ValidatorAddress != o.ValidatorAddress && g.New(c.ValidatorAddress) && *c.ValidatorAddress == *o.ValidatorAddress, "the validator address is copied")
}

//gvc:invariant for=c_BlockIssuerFeature_Clone
func inv_Clone_BlockIssuerFeature_BlockIssuerKeys(slice []BlockIssuerKey, cpy []BlockIssuerKey, i int) bool {
	return len(cpy) == len(slice) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], slice[k].Clone(), slice[k]) })
}

//gvc:invariant for=c_BlockIssuerFeature_Clone
func inv_Clone_BlockIssuerFeature_BlockIssuerKeys_own(o *BlockIssuerFeature, cpy []BlockIssuerKey, i int) bool {
	return len(cpy) == len(o.BlockIssuerKeys) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.BlockIssuerKeys[k].Clone(), o.BlockIssuerKeys[k]) })
}

//gvc:invariant for=c_BlockIssuerFeature_Clone
func inv_Clone_BlockIssuerFeature_BlockIssuerKeys_grown(o *BlockIssuerFeature, cpy []BlockIssuerKey, i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.BlockIssuerKeys[k].Clone(), o.BlockIssuerKeys[k]) })
}

//gvc:contract target=(*BlockIssuerFeature).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_BlockIssuerFeature_Clone(o *BlockIssuerFeature) {
	g.Requires(o != nil)
	g.Requires(g.Forall(0, len(o.BlockIssuerKeys), func(k int) bool { return o.BlockIssuerKeys[k] != nil }))
	c, is := o.Clone().(*BlockIssuerFeature)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.ExpirySlot == o.ExpirySlot, "the copy has the same values")
	g.Ensures(len(c.BlockIssuerKeys) == len(o.BlockIssuerKeys) && g.New(c.BlockIssuerKeys) && g.Disjoint(c.BlockIssuerKeys, o.BlockIssuerKeys), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.BlockIssuerKeys), func(k int) bool {
		return g.Copied(c.BlockIssuerKeys[k], o.BlockIssuerKeys[k].Clone(), o.BlockIssuerKeys[k])
	}), "the elements of lists are cloned")
}

//gvc:invariant for=c_MultiUnlock_Clone
func inv_Clone_MultiUnlock_Unlocks(slice []Unlock, cpy []Unlock, i int) bool {
	return len(cpy) == len(slice) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], slice[k].Clone(), slice[k]) })
}

//gvc:invariant for=c_MultiUnlock_Clone
func inv_Clone_MultiUnlock_Unlocks_own(o *MultiUnlock, cpy []Unlock, i int) bool {
	return len(cpy) == len(o.Unlocks) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.Unlocks[k].Clone(), o.Unlocks[k]) })
}

//gvc:invariant for=c_MultiUnlock_Clone
func inv_Clone_MultiUnlock_Unlocks_grown(o *MultiUnlock, cpy []Unlock, i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.Unlocks[k].Clone(), o.Unlocks[k]) })
}

//gvc:contract target=(*MultiUnlock).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_MultiUnlock_Clone(o *MultiUnlock) {
	g.Requires(o != nil)
	g.Requires(g.Forall(0, len(o.Unlocks), func(k int) bool { return o.Unlocks[k] != nil }))
	c, is := o.Clone().(*MultiUnlock)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(len(c.Unlocks) == len(o.Unlocks) && g.New(c.Unlocks) && g.Disjoint(c.Unlocks, o.Unlocks), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.Unlocks), func(k int) bool { return g.Copied(c.Unlocks[k], o.Unlocks[k].Clone(), o.Unlocks[k]) }), "the elements of lists are cloned")
}

//gvc:invariant for=c_TransactionEssence_Clone
func inv_Clone_TransactionEssence_ContextInputs(in ContextInputs[txEssenceContextInput], cpy ContextInputs[txEssenceContextInput], i int) bool {
	return len(cpy) == len(in) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], in[k].Clone(), in[k]) })
}

//gvc:invariant for=c_TransactionEssence_Clone
func inv_Clone_TransactionEssence_ContextInputs_own(o *TransactionEssence, cpy ContextInputs[txEssenceContextInput], i int) bool {
	return len(cpy) == len(o.ContextInputs) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.ContextInputs[k].Clone(), o.ContextInputs[k]) })
}

//gvc:invariant for=c_TransactionEssence_Clone
func inv_Clone_TransactionEssence_ContextInputs_grown(o *TransactionEssence, cpy ContextInputs[txEssenceContextInput], i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.ContextInputs[k].Clone(), o.ContextInputs[k]) })
}

//gvc:invariant for=c_TransactionEssence_Clone
func inv_Clone_TransactionEssence_Inputs(in Inputs[txEssenceInput], cpy Inputs[txEssenceInput], i int) bool {
	return len(cpy) == len(in) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], in[k].Clone(), in[k]) })
}

//gvc:invariant for=c_TransactionEssence_Clone
func inv_Clone_TransactionEssence_Inputs_own(o *TransactionEssence, cpy Inputs[txEssenceInput], i int) bool {
	return len(cpy) == len(o.Inputs) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.Inputs[k].Clone(), o.Inputs[k]) })
}

//gvc:invariant for=c_TransactionEssence_Clone
func inv_Clone_TransactionEssence_Inputs_grown(o *TransactionEssence, cpy Inputs[txEssenceInput], i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.Inputs[k].Clone(), o.Inputs[k]) })
}

//gvc:invariant for=c_TransactionEssence_Clone
func inv_Clone_TransactionEssence_Allotments(slice []*Allotment, cpy []*Allotment, i int) bool {
	return len(cpy) == len(slice) && g.Forall(0, i, func(k int) bool { return g.New(cpy[k]) && cpy[k] != slice[k] && *cpy[k] == *slice[k] })
}

//gvc:invariant for=c_TransactionEssence_Clone
func inv_Clone_TransactionEssence_Allotments_own(o *TransactionEssence, cpy Allotments, i int) bool {
	return len(cpy) == len(o.Allotments) && g.Forall(0, i, func(k int) bool { return g.New(cpy[k]) && cpy[k] != o.Allotments[k] && *cpy[k] == *o.Allotments[k] })
}

//gvc:invariant for=c_TransactionEssence_Clone
func inv_Clone_TransactionEssence_Allotments_grown(o *TransactionEssence, cpy Allotments, i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.New(cpy[k]) && cpy[k] != o.Allotments[k] && *cpy[k] == *o.Allotments[k] })
}

//gvc:contract target=(*TransactionEssence).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_TransactionEssence_Clone(o *TransactionEssence) {
	g.Requires(o != nil)
	g.Requires(g.Forall(0, len(o.ContextInputs), func(k int) bool { return o.ContextInputs[k] != nil }))
	g.Requires(g.Forall(0, len(o.Inputs), func(k int) bool { return o.Inputs[k] != nil }))
	g.Requires(g.Forall(0, len(o.Allotments), func(k int) bool { return o.Allotments[k] != nil }))
	c := o.Clone()
	g.Ensures(c != o && g.New(c), "the copy is a new object")
	g.Ensures(c.NetworkID == o.NetworkID && c.CreationSlot == o.CreationSlot, "the copy has the same values")
	g.Ensures(sameBytes(c.Capabilities, o.Capabilities) && g.New(c.Capabilities) && g.Disjoint(c.Capabilities, o.Capabilities), "the capabilities are copied")
	g.Ensures(o.Payload != nil || c.Payload == nil, "the copy has a payload only if the original has")
	g.Ensures(o.Payload == nil || g.Copied(c.Payload, o.Payload.Clone(), o.Payload), "the payload is cloned")
	g.Ensures(len(c.ContextInputs) == len(o.ContextInputs) && g.New(c.ContextInputs) && g.Disjoint(c.ContextInputs, o.ContextInputs), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.ContextInputs), func(k int) bool { return g.Copied(c.ContextInputs[k], o.ContextInputs[k].Clone(), o.ContextInputs[k]) }), "the elements of lists are cloned")
	g.Ensures(len(c.Inputs) == len(o.Inputs) && g.New(c.Inputs) && g.Disjoint(c.Inputs, o.Inputs), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.Inputs), func(k int) bool { return g.Copied(c.Inputs[k], o.Inputs[k].Clone(), o.Inputs[k]) }), "the elements of lists are cloned")
	g.Ensures(len(c.Allotments) == len(o.Allotments) && g.New(c.Allotments) && g.Disjoint(c.Allotments, o.Allotments), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.Allotments), func(k int) bool {
		return g.New(c.Allotments[k]) && c.Allotments[k] != o.Allotments[k] && *c.Allotments[k] == *o.Allotments[k]
	}), "the allotments are cloned")
}

//gvc:invariant for=c_Transaction_Clone
func inv_Clone_Transaction_ContextInputs(in ContextInputs[txEssenceContextInput], cpy ContextInputs[txEssenceContextInput], i int) bool {
	return len(cpy) == len(in) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], in[k].Clone(), in[k]) })
}

//gvc:invariant for=c_Transaction_Clone
func inv_Clone_Transaction_ContextInputs_own(o *Transaction, cpy ContextInputs[txEssenceContextInput], i int) bool {
	return len(cpy) == len(o.TransactionEssence.ContextInputs) && g.Forall(0, i, func(k int) bool {
		return g.Copied(cpy[k], o.TransactionEssence.ContextInputs[k].Clone(), o.TransactionEssence.ContextInputs[k])
	})
}

//gvc:invariant for=c_Transaction_Clone
func inv_Clone_Transaction_ContextInputs_grown(o *Transaction, cpy ContextInputs[txEssenceContextInput], i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool {
		return g.Copied(cpy[k], o.TransactionEssence.ContextInputs[k].Clone(), o.TransactionEssence.ContextInputs[k])
	})
}

//gvc:invariant for=c_Transaction_Clone
func inv_Clone_Transaction_Inputs(in Inputs[txEssenceInput], cpy Inputs[txEssenceInput], i int) bool {
	return len(cpy) == len(in) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], in[k].Clone(), in[k]) })
}

//gvc:invariant for=c_Transaction_Clone
func inv_Clone_Transaction_Inputs_own(o *Transaction, cpy Inputs[txEssenceInput], i int) bool {
	return len(cpy) == len(o.TransactionEssence.Inputs) && g.Forall(0, i, func(k int) bool {
		return g.Copied(cpy[k], o.TransactionEssence.Inputs[k].Clone(), o.TransactionEssence.Inputs[k])
	})
}

//gvc:invariant for=c_Transaction_Clone
func inv_Clone_Transaction_Inputs_grown(o *Transaction, cpy Inputs[txEssenceInput], i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool {
		return g.Copied(cpy[k], o.TransactionEssence.Inputs[k].Clone(), o.TransactionEssence.Inputs[k])
	})
}

//gvc:invariant for=c_Transaction_Clone
func inv_Clone_Transaction_Allotments(slice []*Allotment, cpy []*Allotment, i int) bool {
	return len(cpy) == len(slice) && g.Forall(0, i, func(k int) bool { return g.New(cpy[k]) && cpy[k] != slice[k] && *cpy[k] == *slice[k] })
}

//gvc:invariant for=c_Transaction_Clone
func inv_Clone_Transaction_Allotments_own(o *Transaction, cpy Allotments, i int) bool {
	return len(cpy) == len(o.TransactionEssence.Allotments) && g.Forall(0, i, func(k int) bool {
		return g.New(cpy[k]) && cpy[k] != o.TransactionEssence.Allotments[k] && *cpy[k] == *o.TransactionEssence.Allotments[k]
	})
}

//gvc:invariant for=c_Transaction_Clone
func inv_Clone_Transaction_Allotments_grown(o *Transaction, cpy Allotments, i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool {
		return g.New(cpy[k]) && cpy[k] != o.TransactionEssence.Allotments[k] && *cpy[k] == *o.TransactionEssence.Allotments[k]
	})
}

//gvc:invariant for=c_Transaction_Clone
func inv_Clone_Transaction_Outputs(outputs Outputs[TxEssenceOutput], cpy Outputs[TxEssenceOutput], i int) bool {
	return len(cpy) == len(outputs) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], outputs[k].Clone(), outputs[k]) })
}

//gvc:invariant for=c_Transaction_Clone
func inv_Clone_Transaction_Outputs_own(o *Transaction, cpy Outputs[TxEssenceOutput], i int) bool {
	return len(cpy) == len(o.Outputs) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.Outputs[k].Clone(), o.Outputs[k]) })
}

//gvc:invariant for=c_Transaction_Clone
func inv_Clone_Transaction_Outputs_grown(o *Transaction, cpy Outputs[TxEssenceOutput], i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.Outputs[k].Clone(), o.Outputs[k]) })
}

//gvc:contract target=(*Transaction).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_Transaction_Clone(o *Transaction) {
	g.Requires(o != nil)
	g.Requires(o.TransactionEssence != nil)
	g.Requires(g.Forall(0, len(o.TransactionEssence.ContextInputs), func(k int) bool { return o.TransactionEssence.ContextInputs[k] != nil }))
	g.Requires(g.Forall(0, len(o.TransactionEssence.Inputs), func(k int) bool { return o.TransactionEssence.Inputs[k] != nil }))
	g.Requires(g.Forall(0, len(o.TransactionEssence.Allotments), func(k int) bool { return o.TransactionEssence.Allotments[k] != nil }))
	g.Requires(g.Forall(0, len(o.Outputs), func(k int) bool { return o.Outputs[k] != nil }))
	c := o.Clone()
	g.Ensures(c != o && g.New(c) && c.TransactionEssence != o.TransactionEssence && g.New(c.TransactionEssence), "the copy is a new object")
	g.Ensures(c.TransactionEssence.NetworkID == o.TransactionEssence.NetworkID && c.TransactionEssence.CreationSlot == o.TransactionEssence.CreationSlot, "the copy has the same values")
	g.Ensures(sameBytes(c.TransactionEssence.Capabilities, o.TransactionEssence.Capabilities) && g.New(c.TransactionEssence.Capabilities) && g.Disjoint(c.TransactionEssence.Capabilities, o.TransactionEssence.Capabilities), "the capabilities are copied")
	g.Ensures(o.TransactionEssence.Payload != nil || c.TransactionEssence.Payload == nil, "the copy has a payload only if the original has")
	g.Ensures(o.TransactionEssence.Payload == nil || g.Copied(c.TransactionEssence.Payload, o.TransactionEssence.Payload.Clone(), o.TransactionEssence.Payload), "the payload is cloned")
	g.Ensures(len(c.TransactionEssence.ContextInputs) == len(o.TransactionEssence.ContextInputs) && g.New(c.TransactionEssence.ContextInputs) && g.Disjoint(c.TransactionEssence.ContextInputs, o.TransactionEssence.ContextInputs), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.TransactionEssence.ContextInputs), func(k int) bool {
		return g.Copied(c.TransactionEssence.ContextInputs[k], o.TransactionEssence.ContextInputs[k].Clone(), o.TransactionEssence.ContextInputs[k])
	}), "the elements of lists are cloned")
	g.Ensures(len(c.TransactionEssence.Inputs) == len(o.TransactionEssence.Inputs) && g.New(c.TransactionEssence.Inputs) && g.Disjoint(c.TransactionEssence.Inputs, o.TransactionEssence.Inputs), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.TransactionEssence.Inputs), func(k int) bool {
		return g.Copied(c.TransactionEssence.Inputs[k], o.TransactionEssence.Inputs[k].Clone(), o.TransactionEssence.Inputs[k])
	}), "the elements of lists are cloned")
	g.Ensures(len(c.TransactionEssence.Allotments) == len(o.TransactionEssence.Allotments) && g.New(c.TransactionEssence.Allotments) && g.Disjoint(c.TransactionEssence.Allotments, o.TransactionEssence.Allotments), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.TransactionEssence.Allotments), func(k int) bool {
		return g.New(c.TransactionEssence.Allotments[k]) && c.TransactionEssence.Allotments[k] != o.TransactionEssence.Allotments[k] && *c.TransactionEssence.Allotments[k] == *o.TransactionEssence.Allotments[k]
	}), "the allotments are cloned")
	g.Ensures(len(c.Outputs) == len(o.Outputs) && g.New(c.Outputs) && g.Disjoint(c.Outputs, o.Outputs), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.Outputs), func(k int) bool { return g.Copied(c.Outputs[k], o.Outputs[k].Clone(), o.Outputs[k]) }), "the elements of lists are cloned")
	g.Ensures(g.SameIface(c.API, o.API), "the copy uses the same API")
}

//gvc:contract target=(*SignedTransaction).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload,(*Transaction).Clone
func c_SignedTransaction_Clone(o *SignedTransaction) {
	g.Requires(o != nil && o.Transaction != nil && o.Transaction.TransactionEssence != nil)
	g.Requires(g.Forall(0, len(o.Unlocks), func(k int) bool { return o.Unlocks[k] != nil }))
	c, is := o.Clone().(*SignedTransaction)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(g.SameIface(c.API, o.API) && g.CopiedPtr(c.Transaction, o.Transaction.Clone(), o.Transaction), "the transaction is cloned")
	g.Ensures(len(c.Unlocks) == len(o.Unlocks) && g.New(c.Unlocks) && g.Disjoint(c.Unlocks, o.Unlocks), "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.Unlocks), func(k int) bool { return g.Copied(c.Unlocks[k], o.Unlocks[k].Clone(), o.Unlocks[k]) }), "the elements of lists are cloned")
}

//gvc:invariant for=c_SignedTransaction_Clone
func inv_Clone_SignedTransaction(slice []Unlock, cpy []Unlock, i int) bool {
	return len(cpy) == len(slice) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], slice[k].Clone(), slice[k]) })
}

//gvc:invariant for=c_SignedTransaction_Clone
func inv_Clone_SignedTransaction_own(o *SignedTransaction, cpy Unlocks, i int) bool {
	return len(cpy) == len(o.Unlocks) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.Unlocks[k].Clone(), o.Unlocks[k]) })
}

//gvc:invariant for=c_SignedTransaction_Clone
func inv_Clone_SignedTransaction_grown(o *SignedTransaction, cpy Unlocks, i int) bool {
	return len(cpy) == i && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], o.Unlocks[k].Clone(), o.Unlocks[k]) })
}

//gvc:contract target=(OutputSet).Clone props=C19 stable opaque=iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload
func c_OutputSet_Clone(o OutputSet) {
	g.Requires(g.ForallMap(o, func(k OutputID, v Output) bool { return v != nil }))
	c := o.Clone()
	g.Ensures(g.New(c) && !g.Same(c, o), "the copy is a new object")
	g.Ensures(g.ForallMap(c, func(k OutputID, v Output) bool { w, has := o[k]; return has && g.Copied(v, w.Clone(), w) }), "every entry of the copy is the clone of an entry")
	g.Ensures(g.ForallMap(o, func(k OutputID, v Output) bool { _, has := c[k]; return has }), "every entry is copied")
}

//gvc:invariant for=c_OutputSet_Clone
func inv_Clone_OutputSet1(in map[OutputID]Output, cpy map[OutputID]Output) bool {
	return g.ForallMap(cpy, func(k OutputID, v Output) bool { w, has := in[k]; return has && g.Copied(v, w.Clone(), w) })
}

//gvc:invariant for=c_OutputSet_Clone
func inv_Clone_OutputSet2(in map[OutputID]Output, cpy map[OutputID]Output) bool {
	return g.VisitedForall(in, func(k OutputID, v Output) bool { _, has := cpy[k]; return has })
}

//gvc:invariant for=c_OutputSet_Clone
func inv_Clone_OutputSet1_own(o OutputSet, cpy OutputSet) bool {
	return g.ForallMap(cpy, func(k OutputID, v Output) bool { w, has := o[k]; return has && g.Copied(v, w.Clone(), w) })
}

//gvc:invariant for=c_OutputSet_Clone
func inv_Clone_OutputSet2_own(o OutputSet, cpy OutputSet) bool {
	return g.VisitedForall(o, func(k OutputID, v Output) bool { _, has := cpy[k]; return has })
}
