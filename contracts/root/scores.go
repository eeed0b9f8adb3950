package iotago

import (
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// Generated by tools/genscores.py.

// workOf is the work score a computation yields, workFails that it reports an error.
func workOf(w WorkScore, _ error) g.Int { return g.N(w) }

func workFails(_ WorkScore, err error) bool { return err != nil }

// scoreOf is the storage score of an object.
func scoreOf(x NonEphemeralObject, s *StorageScoreStructure) g.Int {
	return g.N(x.StorageScore(s, nil))
}

func smallScore(x StorageScore) bool { return x <= 1<<40 }

func structOK(s *StorageScoreStructure) bool {
	return s != nil && s.StorageScoreParameters != nil && smallScore(s.OffsetOutput) && smallScore(s.OffsetImplicitAccountCreationAddress) && smallScore(s.OffsetDelegation()) && smallScore(s.OffsetStakingFeature()) && smallScore(s.OffsetEd25519BlockIssuerKey())
}

//gvc:contract target=(WorkScore).Add props=C17
func c_WorkScore_Add(w WorkScore, a WorkScore, b WorkScore, c WorkScore, d WorkScore) {
	r1, err1 := w.Add(a)
	s1 := g.N(w).Add(g.N(a))
	g.Ensures((err1 == nil) == s1.Lt(g.Pow2(32)) && g.Implies(err1 == nil, g.N(r1).Eq(s1)), "adding one score is exact or an error")
	r2, err2 := w.Add(a, b)
	s2 := s1.Add(g.N(b))
	g.Ensures((err2 == nil) == s2.Lt(g.Pow2(32)) && g.Implies(err2 == nil, g.N(r2).Eq(s2)), "adding two scores is exact or an error")
	r4, err4 := w.Add(a, b, c, d)
	s4 := s2.Add(g.N(c)).Add(g.N(d))
	g.Ensures((err4 == nil) == s4.Lt(g.Pow2(32)) && g.Implies(err4 == nil, g.N(r4).Eq(s4)), "adding four scores is exact or an error")
}

//gvc:contract target=(WorkScore).Multiply props=C17
func c_WorkScore_Multiply(w WorkScore, in int) {
	g.Requires(in >= 0 && in < 1<<32)
	r, err := w.Multiply(in)
	p := g.N(w).Mul(g.N(in))
	g.Ensures((err == nil) == p.Lt(g.Pow2(32)) && g.Implies(err == nil, g.N(r).Eq(p)), "a product of scores is exact or an error")
}

//gvc:contract target=ManaCost props=C17
func c_ManaCost(rmc Mana, w WorkScore) {
	r, err := ManaCost(rmc, w)
	p := g.N(rmc).Mul(g.N(w))
	g.Ensures((err == nil) == p.Lt(g.Pow2(64)) && g.Implies(err == nil, g.N(r).Eq(p)), "the mana cost is work score times reference mana cost, exact or an error")
}

//gvc:contract target=(WorkScoreParameters).MaxBlockWork props=C17 timeout=60000
func c_MaxBlockWork(p WorkScoreParameters) {
	r, err := p.MaxBlockWork()
	s := g.N(p.DataByte).Mul(g.K(MaxPayloadSize)).Add(g.N(p.Block)).Add(g.N(p.Input).Mul(g.K(MaxInputsCount))).Add(g.N(p.ContextInput).Mul(g.K(MaxContextInputsCount))).Add(g.N(p.Output).Mul(g.K(MaxOutputsCount))).Add(g.N(p.NativeToken).Mul(g.K(MaxOutputsCount))).Add(g.N(p.Staking).Mul(g.K(MaxOutputsCount))).Add(g.N(p.BlockIssuer).Mul(g.K(MaxOutputsCount))).Add(g.N(p.Allotment).Mul(g.K(MaxAllotmentCount))).Add(g.N(p.SignatureEd25519).Mul(g.K(MaxInputsCount * 10)))
	g.Ensures(g.Implies(err == nil, g.N(r).Eq(s)), "the maximal work of a block is the exact weighted sum")
	g.Ensures((err == nil) == s.Lt(g.Pow2(32)), "overflow of the maximal work is an error")
}

//gvc:contract target=(*AddressUnlockCondition).WorkScore props=C17 stable
func c_AddressUnlockCondition_WorkScore(x *AddressUnlockCondition, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.K(0)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*GovernorAddressUnlockCondition).WorkScore props=C17 stable
func c_GovernorAddressUnlockCondition_WorkScore(x *GovernorAddressUnlockCondition, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.K(0)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*StateControllerAddressUnlockCondition).WorkScore props=C17 stable
func c_StateControllerAddressUnlockCondition_WorkScore(x *StateControllerAddressUnlockCondition, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.K(0)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*ImmutableAccountUnlockCondition).WorkScore props=C17 stable
func c_ImmutableAccountUnlockCondition_WorkScore(x *ImmutableAccountUnlockCondition, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.K(0)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*ExpirationUnlockCondition).WorkScore props=C17 stable
func c_ExpirationUnlockCondition_WorkScore(x *ExpirationUnlockCondition, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.K(0)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*StorageDepositReturnUnlockCondition).WorkScore props=C17 stable
func c_StorageDepositReturnUnlockCondition_WorkScore(x *StorageDepositReturnUnlockCondition, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.K(0)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*TimelockUnlockCondition).WorkScore props=C17 stable
func c_TimelockUnlockCondition_WorkScore(x *TimelockUnlockCondition, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.K(0)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*SenderFeature).WorkScore props=C17 stable
func c_SenderFeature_WorkScore(x *SenderFeature, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.K(0)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*IssuerFeature).WorkScore props=C17 stable
func c_IssuerFeature_WorkScore(x *IssuerFeature, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.K(0)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*TagFeature).WorkScore props=C17 stable
func c_TagFeature_WorkScore(x *TagFeature, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.K(0)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*AccountUnlock).WorkScore props=C17 stable
func c_AccountUnlock_WorkScore(x *AccountUnlock, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.K(0)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*AnchorUnlock).WorkScore props=C17 stable
func c_AnchorUnlock_WorkScore(x *AnchorUnlock, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.K(0)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*NFTUnlock).WorkScore props=C17 stable
func c_NFTUnlock_WorkScore(x *NFTUnlock, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.K(0)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*ReferenceUnlock).WorkScore props=C17 stable
func c_ReferenceUnlock_WorkScore(x *ReferenceUnlock, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.K(0)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*EmptyUnlock).WorkScore props=C17 stable
func c_EmptyUnlock_WorkScore(x *EmptyUnlock, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.K(0)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*ValidationBlockBody).WorkScore props=C17 stable
func c_ValidationBlockBody_WorkScore(x *ValidationBlockBody, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.K(0)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(MetadataFeature).WorkScore props=C17 stable
func c_MetadataFeature_WorkScore(x MetadataFeature, p *WorkScoreParameters) {
	g.Requires(p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.K(0)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(StateMetadataFeature).WorkScore props=C17 stable
func c_StateMetadataFeature_WorkScore(x StateMetadataFeature, p *WorkScoreParameters) {
	g.Requires(p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.K(0)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*NativeTokenFeature).WorkScore props=C17 stable
func c_NativeTokenFeature_WorkScore(x *NativeTokenFeature, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.N(p.NativeToken)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*BlockIssuerFeature).WorkScore props=C17 stable
func c_BlockIssuerFeature_WorkScore(x *BlockIssuerFeature, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.N(p.BlockIssuer)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*StakingFeature).WorkScore props=C17 stable
func c_StakingFeature_WorkScore(x *StakingFeature, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.N(p.Staking)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*SimpleTokenScheme).WorkScore props=C17 stable
func c_SimpleTokenScheme_WorkScore(x *SimpleTokenScheme, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.N(p.NativeToken)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*UTXOInput).WorkScore props=C17 stable
func c_UTXOInput_WorkScore(x *UTXOInput, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.N(p.Input)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*CommitmentInput).WorkScore props=C17 stable
func c_CommitmentInput_WorkScore(x *CommitmentInput, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.N(p.ContextInput)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*BlockIssuanceCreditInput).WorkScore props=C17 stable
func c_BlockIssuanceCreditInput_WorkScore(x *BlockIssuanceCreditInput, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.N(p.ContextInput)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*RewardInput).WorkScore props=C17 stable
func c_RewardInput_WorkScore(x *RewardInput, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.N(p.ContextInput)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*Ed25519Signature).WorkScore props=C17 stable
func c_Ed25519Signature_WorkScore(x *Ed25519Signature, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.N(p.SignatureEd25519)
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*SignatureUnlock).WorkScore props=C17 stable opaque=iface:(ProcessableObject).WorkScore
func c_SignatureUnlock_WorkScore(x *SignatureUnlock, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil && x.Signature != nil)
	w, err := x.WorkScore(p)
	bad := workFails(x.Signature.WorkScore(p))
	sum := g.K(0).Add(workOf(x.Signature.WorkScore(p)))
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(Allotments).WorkScore props=C17 stable
func c_Allotments_WorkScore(x Allotments, p *WorkScoreParameters) {
	g.Requires(p != nil && len(x) < 1<<32)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.N(p.Allotment).Mul(g.N(len(x)))
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*BasicOutput).WorkScore props=C17 stable opaque=(UnlockConditions[T]).WorkScore,(Features[T]).WorkScore,iface:(ProcessableObject).WorkScore
func c_BasicOutput_WorkScore(x *BasicOutput, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := workFails(x.UnlockConditions.WorkScore(p)) || workFails(x.Features.WorkScore(p))
	sum := g.N(p.Output).Add(workOf(x.UnlockConditions.WorkScore(p))).Add(workOf(x.Features.WorkScore(p)))
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*AccountOutput).WorkScore props=C17 stable opaque=(UnlockConditions[T]).WorkScore,(Features[T]).WorkScore,iface:(ProcessableObject).WorkScore
func c_AccountOutput_WorkScore(x *AccountOutput, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := workFails(x.UnlockConditions.WorkScore(p)) || workFails(x.Features.WorkScore(p)) || workFails(x.ImmutableFeatures.WorkScore(p))
	sum := g.N(p.Output).Add(workOf(x.UnlockConditions.WorkScore(p))).Add(workOf(x.Features.WorkScore(p))).Add(workOf(x.ImmutableFeatures.WorkScore(p)))
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*AnchorOutput).WorkScore props=C17 stable opaque=(UnlockConditions[T]).WorkScore,(Features[T]).WorkScore,iface:(ProcessableObject).WorkScore
func c_AnchorOutput_WorkScore(x *AnchorOutput, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := workFails(x.UnlockConditions.WorkScore(p)) || workFails(x.Features.WorkScore(p)) || workFails(x.ImmutableFeatures.WorkScore(p))
	sum := g.N(p.Output).Add(workOf(x.UnlockConditions.WorkScore(p))).Add(workOf(x.Features.WorkScore(p))).Add(workOf(x.ImmutableFeatures.WorkScore(p)))
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*NFTOutput).WorkScore props=C17 stable opaque=(UnlockConditions[T]).WorkScore,(Features[T]).WorkScore,iface:(ProcessableObject).WorkScore
func c_NFTOutput_WorkScore(x *NFTOutput, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := workFails(x.UnlockConditions.WorkScore(p)) || workFails(x.Features.WorkScore(p)) || workFails(x.ImmutableFeatures.WorkScore(p))
	sum := g.N(p.Output).Add(workOf(x.UnlockConditions.WorkScore(p))).Add(workOf(x.Features.WorkScore(p))).Add(workOf(x.ImmutableFeatures.WorkScore(p)))
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*FoundryOutput).WorkScore props=C17 stable opaque=(UnlockConditions[T]).WorkScore,(Features[T]).WorkScore,iface:(ProcessableObject).WorkScore
func c_FoundryOutput_WorkScore(x *FoundryOutput, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil && x.TokenScheme != nil)
	w, err := x.WorkScore(p)
	bad := workFails(x.TokenScheme.WorkScore(p)) || workFails(x.UnlockConditions.WorkScore(p)) || workFails(x.Features.WorkScore(p)) || workFails(x.ImmutableFeatures.WorkScore(p))
	sum := g.N(p.Output).Add(workOf(x.TokenScheme.WorkScore(p))).Add(workOf(x.UnlockConditions.WorkScore(p))).Add(workOf(x.Features.WorkScore(p))).Add(workOf(x.ImmutableFeatures.WorkScore(p)))
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*DelegationOutput).WorkScore props=C17 stable opaque=(UnlockConditions[T]).WorkScore,(Features[T]).WorkScore,iface:(ProcessableObject).WorkScore
func c_DelegationOutput_WorkScore(x *DelegationOutput, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := workFails(x.UnlockConditions.WorkScore(p))
	sum := g.N(p.Output).Add(workOf(x.UnlockConditions.WorkScore(p)))
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*TransactionEssence).WorkScore props=C17 stable opaque=(ContextInputs[T]).WorkScore,(Inputs[T]).WorkScore,(Allotments).WorkScore
func c_TransactionEssence_WorkScore(x *TransactionEssence, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	bad := workFails(x.ContextInputs.WorkScore(p)) || workFails(x.Inputs.WorkScore(p)) || workFails(x.Allotments.WorkScore(p))
	sum := g.K(0).Add(workOf(x.ContextInputs.WorkScore(p))).Add(workOf(x.Inputs.WorkScore(p))).Add(workOf(x.Allotments.WorkScore(p)))
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*Transaction).WorkScore props=C17 stable opaque=(*TransactionEssence).WorkScore,(Outputs[T]).WorkScore
func c_Transaction_WorkScore(x *Transaction, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil && x.TransactionEssence != nil)
	w, err := x.WorkScore(p)
	bad := workFails(x.TransactionEssence.WorkScore(p)) || workFails(x.Outputs.WorkScore(p))
	sum := g.K(0).Add(workOf(x.TransactionEssence.WorkScore(p))).Add(workOf(x.Outputs.WorkScore(p)))
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*TaggedData).WorkScore props=C17 stable opaque=(*TaggedData).Size
func c_TaggedData_WorkScore(x *TaggedData, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil && x.Size() >= 0 && x.Size() < 1<<32)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.N(p.Block).Add(g.N(p.DataByte).Mul(g.N(x.Size())))
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*CandidacyAnnouncement).WorkScore props=C17 stable opaque=(*CandidacyAnnouncement).Size
func c_CandidacyAnnouncement_WorkScore(x *CandidacyAnnouncement, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil && x.Size() >= 0 && x.Size() < 1<<32)
	w, err := x.WorkScore(p)
	bad := false
	sum := g.N(p.Block).Add(g.N(p.DataByte).Mul(g.N(x.Size())))
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*SignedTransaction).WorkScore props=C17 stable opaque=(*SignedTransaction).Size,(*Transaction).WorkScore,(Unlocks).WorkScore
func c_SignedTransaction_WorkScore(x *SignedTransaction, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil && x.Transaction != nil && x.Size() >= 0 && x.Size() < 1<<32)
	w, err := x.WorkScore(p)
	bad := workFails(x.Transaction.WorkScore(p)) || workFails(x.Unlocks.WorkScore(p))
	sum := g.N(p.Block).Add(g.N(p.DataByte).Mul(g.N(x.Size()))).Add(workOf(x.Transaction.WorkScore(p))).Add(workOf(x.Unlocks.WorkScore(p)))
	g.Ensures((err == nil) == (!bad && sum.Lt(g.Pow2(32))), "an error exactly if a part reports one or the sum overflows")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(sum)), "the work score is the exact sum of its parts")
}

//gvc:contract target=(*BasicBlockBody).WorkScore props=C17 stable opaque=iface:(ProcessableObject).WorkScore
func c_BasicBlockBody_WorkScore(x *BasicBlockBody, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil)
	w, err := x.WorkScore(p)
	if x.Payload == nil {
		g.Ensures(err == nil && w == p.Block, "a block without payload costs the block offset")
	} else {
		v, e := x.Payload.WorkScore(p)
		g.Ensures((err == nil) == (e == nil) && g.Implies(err == nil, w == v), "a block costs what its payload does")
	}
}

//gvc:contract target=(*Block).WorkScore props=C17 stable opaque=iface:(ProcessableObject).WorkScore,iface:(ProtocolParameters).WorkScoreParameters,iface:(API).ProtocolParameters
func c_Block_WorkScore(x *Block) {
	g.Requires(x != nil && x.API != nil && x.API.ProtocolParameters() != nil && x.Body != nil)
	p := x.API.ProtocolParameters().WorkScoreParameters()
	g.Requires(p != nil)
	w, err := x.WorkScore()
	v, e := x.Body.WorkScore(p)
	g.Ensures((err == nil) == (e == nil) && g.Implies(err == nil, w == v), "a block costs what its body does")
}

//gvc:contract target=(*Block).ManaCost props=C17 stable opaque=(*Block).WorkScore
func c_Block_ManaCost(x *Block, rmc Mana) {
	g.Requires(x != nil)
	r, err := x.ManaCost(rmc)
	v, e := x.WorkScore()
	p := g.N(rmc).Mul(g.N(v))
	g.Ensures((err == nil) == (e == nil && p.Lt(g.Pow2(64))), "an error exactly if the work score fails or the cost overflows")
	g.Ensures(g.Implies(err == nil, g.N(r).Eq(p)), "the mana cost of a block is its work score times the reference mana cost")
}

//gvc:contract target=(UnlockConditions[T]).WorkScore props=C17 stable opaque=iface:(ProcessableObject).WorkScore
func c_UnlockConditions_WorkScore(x UnlockConditions[BasicOutputUnlockCondition], p *WorkScoreParameters) {
	g.Requires(p != nil && g.Forall(0, len(x), func(i int) bool { return x[i] != nil }))
	w, err := x.WorkScore(p)
	g.Ensures(g.Implies(err == nil, g.Forall(0, len(x), func(i int) bool { return !workFails(x[i].WorkScore(p)) })), "a failing element is an error")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(g.Sum(0, len(x), func(i int) g.Int { return workOf(x[i].WorkScore(p)) }))), "the work score of a list is the exact sum over its elements")
	g.Ensures(g.Implies(err != nil, g.Exists(0, len(x), func(i int) bool { return workFails(x[i].WorkScore(p)) }) || g.Pow2(32).Le(g.Sum(0, len(x), func(i int) g.Int { return workOf(x[i].WorkScore(p)) }))), "an error only if an element fails or the sum overflows")
}

//gvc:invariant for=c_UnlockConditions_WorkScore
func inv_UnlockConditions_WorkScore(f UnlockConditions[BasicOutputUnlockCondition], workScoreParameters *WorkScoreParameters, workScoreUnlockConds WorkScore, i int) bool {
	return g.N(workScoreUnlockConds).Eq(g.Sum(0, i, func(k int) g.Int { return workOf(f[k].WorkScore(workScoreParameters)) }))
}

//gvc:invariant for=c_UnlockConditions_WorkScore
func inv_UnlockConditions_WorkScore_ok(f UnlockConditions[BasicOutputUnlockCondition], workScoreParameters *WorkScoreParameters, i int) bool {
	return g.Forall(0, i, func(k int) bool { return !workFails(f[k].WorkScore(workScoreParameters)) })
}

//gvc:contract target=(Features[T]).WorkScore props=C17 stable opaque=iface:(ProcessableObject).WorkScore
func c_Features_WorkScore(x Features[BasicOutputFeature], p *WorkScoreParameters) {
	g.Requires(p != nil && g.Forall(0, len(x), func(i int) bool { return x[i] != nil }))
	w, err := x.WorkScore(p)
	g.Ensures(g.Implies(err == nil, g.Forall(0, len(x), func(i int) bool { return !workFails(x[i].WorkScore(p)) })), "a failing element is an error")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(g.Sum(0, len(x), func(i int) g.Int { return workOf(x[i].WorkScore(p)) }))), "the work score of a list is the exact sum over its elements")
	g.Ensures(g.Implies(err != nil, g.Exists(0, len(x), func(i int) bool { return workFails(x[i].WorkScore(p)) }) || g.Pow2(32).Le(g.Sum(0, len(x), func(i int) g.Int { return workOf(x[i].WorkScore(p)) }))), "an error only if an element fails or the sum overflows")
}

//gvc:invariant for=c_Features_WorkScore
func inv_Features_WorkScore(f Features[BasicOutputFeature], workScoreParameters *WorkScoreParameters, workScoreFeats WorkScore, i int) bool {
	return g.N(workScoreFeats).Eq(g.Sum(0, i, func(k int) g.Int { return workOf(f[k].WorkScore(workScoreParameters)) }))
}

//gvc:invariant for=c_Features_WorkScore
func inv_Features_WorkScore_ok(f Features[BasicOutputFeature], workScoreParameters *WorkScoreParameters, i int) bool {
	return g.Forall(0, i, func(k int) bool { return !workFails(f[k].WorkScore(workScoreParameters)) })
}

//gvc:contract target=(Inputs[T]).WorkScore props=C17 stable opaque=iface:(ProcessableObject).WorkScore
func c_Inputs_WorkScore(x TxEssenceInputs, p *WorkScoreParameters) {
	g.Requires(p != nil && g.Forall(0, len(x), func(i int) bool { return x[i] != nil }))
	w, err := x.WorkScore(p)
	g.Ensures(g.Implies(err == nil, g.Forall(0, len(x), func(i int) bool { return !workFails(x[i].WorkScore(p)) })), "a failing element is an error")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(g.Sum(0, len(x), func(i int) g.Int { return workOf(x[i].WorkScore(p)) }))), "the work score of a list is the exact sum over its elements")
	g.Ensures(g.Implies(err != nil, g.Exists(0, len(x), func(i int) bool { return workFails(x[i].WorkScore(p)) }) || g.Pow2(32).Le(g.Sum(0, len(x), func(i int) g.Int { return workOf(x[i].WorkScore(p)) }))), "an error only if an element fails or the sum overflows")
}

//gvc:invariant for=c_Inputs_WorkScore
func inv_Inputs_WorkScore(in TxEssenceInputs, workScoreParameters *WorkScoreParameters, workScoreInputs WorkScore, i int) bool {
	return g.N(workScoreInputs).Eq(g.Sum(0, i, func(k int) g.Int { return workOf(in[k].WorkScore(workScoreParameters)) }))
}

//gvc:invariant for=c_Inputs_WorkScore
func inv_Inputs_WorkScore_ok(in TxEssenceInputs, workScoreParameters *WorkScoreParameters, i int) bool {
	return g.Forall(0, i, func(k int) bool { return !workFails(in[k].WorkScore(workScoreParameters)) })
}

//gvc:contract target=(ContextInputs[T]).WorkScore props=C17 stable opaque=iface:(ProcessableObject).WorkScore
func c_ContextInputs_WorkScore(x TxEssenceContextInputs, p *WorkScoreParameters) {
	g.Requires(p != nil && g.Forall(0, len(x), func(i int) bool { return x[i] != nil }))
	w, err := x.WorkScore(p)
	g.Ensures(g.Implies(err == nil, g.Forall(0, len(x), func(i int) bool { return !workFails(x[i].WorkScore(p)) })), "a failing element is an error")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(g.Sum(0, len(x), func(i int) g.Int { return workOf(x[i].WorkScore(p)) }))), "the work score of a list is the exact sum over its elements")
	g.Ensures(g.Implies(err != nil, g.Exists(0, len(x), func(i int) bool { return workFails(x[i].WorkScore(p)) }) || g.Pow2(32).Le(g.Sum(0, len(x), func(i int) g.Int { return workOf(x[i].WorkScore(p)) }))), "an error only if an element fails or the sum overflows")
}

//gvc:invariant for=c_ContextInputs_WorkScore
func inv_ContextInputs_WorkScore(in TxEssenceContextInputs, workScoreParameters *WorkScoreParameters, workScoreContextInputs WorkScore, i int) bool {
	return g.N(workScoreContextInputs).Eq(g.Sum(0, i, func(k int) g.Int { return workOf(in[k].WorkScore(workScoreParameters)) }))
}

//gvc:invariant for=c_ContextInputs_WorkScore
func inv_ContextInputs_WorkScore_ok(in TxEssenceContextInputs, workScoreParameters *WorkScoreParameters, i int) bool {
	return g.Forall(0, i, func(k int) bool { return !workFails(in[k].WorkScore(workScoreParameters)) })
}

//gvc:contract target=(Outputs[T]).WorkScore props=C17 stable opaque=iface:(ProcessableObject).WorkScore
func c_Outputs_WorkScore(x TxEssenceOutputs, p *WorkScoreParameters) {
	g.Requires(p != nil && g.Forall(0, len(x), func(i int) bool { return x[i] != nil }))
	w, err := x.WorkScore(p)
	g.Ensures(g.Implies(err == nil, g.Forall(0, len(x), func(i int) bool { return !workFails(x[i].WorkScore(p)) })), "a failing element is an error")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(g.Sum(0, len(x), func(i int) g.Int { return workOf(x[i].WorkScore(p)) }))), "the work score of a list is the exact sum over its elements")
	g.Ensures(g.Implies(err != nil, g.Exists(0, len(x), func(i int) bool { return workFails(x[i].WorkScore(p)) }) || g.Pow2(32).Le(g.Sum(0, len(x), func(i int) g.Int { return workOf(x[i].WorkScore(p)) }))), "an error only if an element fails or the sum overflows")
}

//gvc:invariant for=c_Outputs_WorkScore
func inv_Outputs_WorkScore(outputs TxEssenceOutputs, workScoreParameters *WorkScoreParameters, workScoreOutputs WorkScore, i int) bool {
	return g.N(workScoreOutputs).Eq(g.Sum(0, i, func(k int) g.Int { return workOf(outputs[k].WorkScore(workScoreParameters)) }))
}

//gvc:invariant for=c_Outputs_WorkScore
func inv_Outputs_WorkScore_ok(outputs TxEssenceOutputs, workScoreParameters *WorkScoreParameters, i int) bool {
	return g.Forall(0, i, func(k int) bool { return !workFails(outputs[k].WorkScore(workScoreParameters)) })
}

//gvc:contract target=(Unlocks).WorkScore props=C17 stable opaque=iface:(ProcessableObject).WorkScore
func c_Unlocks_WorkScore(x Unlocks, p *WorkScoreParameters) {
	g.Requires(p != nil && g.Forall(0, len(x), func(i int) bool { return x[i] != nil }))
	w, err := x.WorkScore(p)
	g.Ensures(g.Implies(err == nil, g.Forall(0, len(x), func(i int) bool { return !workFails(x[i].WorkScore(p)) })), "a failing element is an error")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(g.Sum(0, len(x), func(i int) g.Int { return workOf(x[i].WorkScore(p)) }))), "the work score of a list is the exact sum over its elements")
	g.Ensures(g.Implies(err != nil, g.Exists(0, len(x), func(i int) bool { return workFails(x[i].WorkScore(p)) }) || g.Pow2(32).Le(g.Sum(0, len(x), func(i int) g.Int { return workOf(x[i].WorkScore(p)) }))), "an error only if an element fails or the sum overflows")
}

//gvc:invariant for=c_Unlocks_WorkScore
func inv_Unlocks_WorkScore(o Unlocks, workScoreParameters *WorkScoreParameters, workScoreUnlocks WorkScore, i int) bool {
	return g.N(workScoreUnlocks).Eq(g.Sum(0, i, func(k int) g.Int { return workOf(o[k].WorkScore(workScoreParameters)) }))
}

//gvc:invariant for=c_Unlocks_WorkScore
func inv_Unlocks_WorkScore_ok(o Unlocks, workScoreParameters *WorkScoreParameters, i int) bool {
	return g.Forall(0, i, func(k int) bool { return !workFails(o[k].WorkScore(workScoreParameters)) })
}

//gvc:contract target=(*MultiUnlock).WorkScore props=C17 stable opaque=iface:(ProcessableObject).WorkScore
func c_MultiUnlock_WorkScore(x *MultiUnlock, p *WorkScoreParameters) {
	g.Requires(x != nil && p != nil && g.Forall(0, len(x.Unlocks), func(i int) bool { return x.Unlocks[i] != nil }))
	w, err := x.WorkScore(p)
	g.Ensures(g.Implies(err == nil, g.Forall(0, len(x.Unlocks), func(i int) bool { return !workFails(x.Unlocks[i].WorkScore(p)) })), "a failing element is an error")
	g.Ensures(g.Implies(err == nil, g.N(w).Eq(g.Sum(0, len(x.Unlocks), func(i int) g.Int { return workOf(x.Unlocks[i].WorkScore(p)) }))), "the work score of a list is the exact sum over its elements")
	g.Ensures(g.Implies(err != nil, g.Exists(0, len(x.Unlocks), func(i int) bool { return workFails(x.Unlocks[i].WorkScore(p)) }) || g.Pow2(32).Le(g.Sum(0, len(x.Unlocks), func(i int) g.Int { return workOf(x.Unlocks[i].WorkScore(p)) }))), "an error only if an element fails or the sum overflows")
}

//gvc:invariant for=c_MultiUnlock_WorkScore
func inv_MultiUnlock_WorkScore(u *MultiUnlock, workScoreParameters *WorkScoreParameters, sum WorkScore, i int) bool {
	return g.N(sum).Eq(g.Sum(0, i, func(k int) g.Int { return workOf(u.Unlocks[k].WorkScore(workScoreParameters)) }))
}

//gvc:invariant for=c_MultiUnlock_WorkScore
func inv_MultiUnlock_WorkScore_ok(u *MultiUnlock, workScoreParameters *WorkScoreParameters, i int) bool {
	return g.Forall(0, i, func(k int) bool { return !workFails(u.Unlocks[k].WorkScore(workScoreParameters)) })
}

//gvc:contract target=(*AccountAddress).StorageScore props=C11 stable
func c_AccountAddress_StorageScore(x *AccountAddress, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.K(0)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*AnchorAddress).StorageScore props=C11 stable
func c_AnchorAddress_StorageScore(x *AnchorAddress, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.K(0)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*Ed25519Address).StorageScore props=C11 stable
func c_Ed25519Address_StorageScore(x *Ed25519Address, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.K(0)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*NFTAddress).StorageScore props=C11 stable
func c_NFTAddress_StorageScore(x *NFTAddress, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.K(0)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*MultiAddress).StorageScore props=C11 stable
func c_MultiAddress_StorageScore(x *MultiAddress, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.K(0)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*RestrictedAddress).StorageScore props=C11 stable
func c_RestrictedAddress_StorageScore(x *RestrictedAddress, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.K(0)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*NativeTokenFeature).StorageScore props=C11 stable
func c_NativeTokenFeature_StorageScore(x *NativeTokenFeature, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.K(0)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*TagFeature).StorageScore props=C11 stable
func c_TagFeature_StorageScore(x *TagFeature, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.K(0)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*TimelockUnlockCondition).StorageScore props=C11 stable
func c_TimelockUnlockCondition_StorageScore(x *TimelockUnlockCondition, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.K(0)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*SimpleTokenScheme).StorageScore props=C11 stable
func c_SimpleTokenScheme_StorageScore(x *SimpleTokenScheme, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.K(0)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(MetadataFeature).StorageScore props=C11 stable
func c_MetadataFeature_StorageScore(x MetadataFeature, s *StorageScoreStructure) {
	g.Requires(structOK(s))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.K(0)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(StateMetadataFeature).StorageScore props=C11 stable
func c_StateMetadataFeature_StorageScore(x StateMetadataFeature, s *StorageScoreStructure) {
	g.Requires(structOK(s))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.K(0)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*ImplicitAccountCreationAddress).StorageScore props=C11 stable
func c_ImplicitAccountCreationAddress_StorageScore(x *ImplicitAccountCreationAddress, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.N(s.OffsetImplicitAccountCreationAddress)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*StakingFeature).StorageScore props=C11 stable
func c_StakingFeature_StorageScore(x *StakingFeature, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.N(s.StorageScoreParameters.OffsetStakingFeature)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*Ed25519PublicKeyHashBlockIssuerKey).StorageScore props=C11 stable
func c_Ed25519PublicKeyHashBlockIssuerKey_StorageScore(x *Ed25519PublicKeyHashBlockIssuerKey, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.N(s.StorageScoreParameters.OffsetEd25519BlockIssuerKey)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*BlockIssuerFeature).StorageScore props=C11 stable opaque=(BlockIssuerKeys).StorageScore
func c_BlockIssuerFeature_StorageScore(x *BlockIssuerFeature, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.N(x.BlockIssuerKeys.StorageScore(s, nil))), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*AddressUnlockCondition).StorageScore props=C11 stable opaque=iface:(NonEphemeralObject).StorageScore
func c_AddressUnlockCondition_StorageScore(x *AddressUnlockCondition, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s) && x.Address != nil)
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(scoreOf(x.Address, s)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*GovernorAddressUnlockCondition).StorageScore props=C11 stable opaque=iface:(NonEphemeralObject).StorageScore
func c_GovernorAddressUnlockCondition_StorageScore(x *GovernorAddressUnlockCondition, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s) && x.Address != nil)
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(scoreOf(x.Address, s)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*StateControllerAddressUnlockCondition).StorageScore props=C11 stable opaque=iface:(NonEphemeralObject).StorageScore
func c_StateControllerAddressUnlockCondition_StorageScore(x *StateControllerAddressUnlockCondition, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s) && x.Address != nil)
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(scoreOf(x.Address, s)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*ExpirationUnlockCondition).StorageScore props=C11 stable opaque=iface:(NonEphemeralObject).StorageScore
func c_ExpirationUnlockCondition_StorageScore(x *ExpirationUnlockCondition, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s) && x.ReturnAddress != nil)
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(scoreOf(x.ReturnAddress, s)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*StorageDepositReturnUnlockCondition).StorageScore props=C11 stable opaque=iface:(NonEphemeralObject).StorageScore
func c_StorageDepositReturnUnlockCondition_StorageScore(x *StorageDepositReturnUnlockCondition, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s) && x.ReturnAddress != nil)
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(scoreOf(x.ReturnAddress, s)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*SenderFeature).StorageScore props=C11 stable opaque=iface:(NonEphemeralObject).StorageScore
func c_SenderFeature_StorageScore(x *SenderFeature, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s) && x.Address != nil)
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(scoreOf(x.Address, s)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*IssuerFeature).StorageScore props=C11 stable opaque=iface:(NonEphemeralObject).StorageScore
func c_IssuerFeature_StorageScore(x *IssuerFeature, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s) && x.Address != nil)
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(scoreOf(x.Address, s)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*ImmutableAccountUnlockCondition).StorageScore props=C11 stable
func c_ImmutableAccountUnlockCondition_StorageScore(x *ImmutableAccountUnlockCondition, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s) && x.Address != nil)
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.K(0)), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*BasicOutput).StorageScore props=C11 stable opaque=(*BasicOutput).Size,(UnlockConditions[T]).StorageScore,(Features[T]).StorageScore,iface:(NonEphemeralObject).StorageScore
func c_BasicOutput_StorageScore(x *BasicOutput, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s) && smallSize(x.Size()) && smallScore(x.UnlockConditions.StorageScore(s, nil)) && smallScore(x.Features.StorageScore(s, nil)))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.N(s.OffsetOutput).Add(g.N(s.StorageScoreParameters.FactorData).Mul(g.N(x.Size()))).Add(g.N(x.UnlockConditions.StorageScore(s, nil))).Add(g.N(x.Features.StorageScore(s, nil)))), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*AccountOutput).StorageScore props=C11 stable opaque=(*AccountOutput).Size,(UnlockConditions[T]).StorageScore,(Features[T]).StorageScore,iface:(NonEphemeralObject).StorageScore
func c_AccountOutput_StorageScore(x *AccountOutput, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s) && smallSize(x.Size()) && smallScore(x.UnlockConditions.StorageScore(s, nil)) && smallScore(x.Features.StorageScore(s, nil)) && smallScore(x.ImmutableFeatures.StorageScore(s, nil)))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.N(s.OffsetOutput).Add(g.N(s.StorageScoreParameters.FactorData).Mul(g.N(x.Size()))).Add(g.N(x.UnlockConditions.StorageScore(s, nil))).Add(g.N(x.Features.StorageScore(s, nil))).Add(g.N(x.ImmutableFeatures.StorageScore(s, nil)))), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*AnchorOutput).StorageScore props=C11 stable opaque=(*AnchorOutput).Size,(UnlockConditions[T]).StorageScore,(Features[T]).StorageScore,iface:(NonEphemeralObject).StorageScore
func c_AnchorOutput_StorageScore(x *AnchorOutput, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s) && smallSize(x.Size()) && smallScore(x.UnlockConditions.StorageScore(s, nil)) && smallScore(x.Features.StorageScore(s, nil)) && smallScore(x.ImmutableFeatures.StorageScore(s, nil)))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.N(s.OffsetOutput).Add(g.N(s.StorageScoreParameters.FactorData).Mul(g.N(x.Size()))).Add(g.N(x.UnlockConditions.StorageScore(s, nil))).Add(g.N(x.Features.StorageScore(s, nil))).Add(g.N(x.ImmutableFeatures.StorageScore(s, nil)))), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*NFTOutput).StorageScore props=C11 stable opaque=(*NFTOutput).Size,(UnlockConditions[T]).StorageScore,(Features[T]).StorageScore,iface:(NonEphemeralObject).StorageScore
func c_NFTOutput_StorageScore(x *NFTOutput, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s) && smallSize(x.Size()) && smallScore(x.UnlockConditions.StorageScore(s, nil)) && smallScore(x.Features.StorageScore(s, nil)) && smallScore(x.ImmutableFeatures.StorageScore(s, nil)))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.N(s.OffsetOutput).Add(g.N(s.StorageScoreParameters.FactorData).Mul(g.N(x.Size()))).Add(g.N(x.UnlockConditions.StorageScore(s, nil))).Add(g.N(x.Features.StorageScore(s, nil))).Add(g.N(x.ImmutableFeatures.StorageScore(s, nil)))), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*FoundryOutput).StorageScore props=C11 stable opaque=(*FoundryOutput).Size,(UnlockConditions[T]).StorageScore,(Features[T]).StorageScore,iface:(NonEphemeralObject).StorageScore
func c_FoundryOutput_StorageScore(x *FoundryOutput, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s) && x.TokenScheme != nil && smallSize(x.Size()) && smallScore(x.TokenScheme.StorageScore(s, nil)) && smallScore(x.UnlockConditions.StorageScore(s, nil)) && smallScore(x.Features.StorageScore(s, nil)) && smallScore(x.ImmutableFeatures.StorageScore(s, nil)))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.N(s.OffsetOutput).Add(g.N(s.StorageScoreParameters.FactorData).Mul(g.N(x.Size()))).Add(g.N(x.TokenScheme.StorageScore(s, nil))).Add(g.N(x.UnlockConditions.StorageScore(s, nil))).Add(g.N(x.Features.StorageScore(s, nil))).Add(g.N(x.ImmutableFeatures.StorageScore(s, nil)))), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(*DelegationOutput).StorageScore props=C11 stable opaque=(*DelegationOutput).Size,(UnlockConditions[T]).StorageScore,(Features[T]).StorageScore,iface:(NonEphemeralObject).StorageScore
func c_DelegationOutput_StorageScore(x *DelegationOutput, s *StorageScoreStructure) {
	g.Requires(x != nil && structOK(s) && smallSize(x.Size()) && smallScore(x.UnlockConditions.StorageScore(s, nil)))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.N(s.OffsetOutput).Add(g.N(s.StorageScoreParameters.FactorData).Mul(g.N(x.Size()))).Add(g.N(x.UnlockConditions.StorageScore(s, nil))).Add(g.N(s.StorageScoreParameters.OffsetDelegation))), "the storage score is the exact sum of its parts")
}

//gvc:contract target=(UnlockConditions[T]).StorageScore props=C11 stable opaque=iface:(NonEphemeralObject).StorageScore
func c_UnlockConditions_StorageScore(x UnlockConditions[BasicOutputUnlockCondition], s *StorageScoreStructure) {
	g.Requires(structOK(s) && len(x) <= 1<<20 && g.Forall(0, len(x), func(i int) bool { return x[i] != nil && smallScore(x[i].StorageScore(s, nil)) }))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.Sum(0, len(x), func(i int) g.Int { return scoreOf(x[i], s) })), "the storage score of a list is the exact sum over its elements")
}

//gvc:invariant for=c_UnlockConditions_StorageScore
func inv_UnlockConditions_StorageScore(f UnlockConditions[BasicOutputUnlockCondition], storageScoreStruct *StorageScoreStructure, sumCost StorageScore, i int) bool {
	return g.N(sumCost).Eq(g.Sum(0, i, func(k int) g.Int { return scoreOf(f[k], storageScoreStruct) })) && sumCost <= StorageScore(i)*(1<<40)
}

//gvc:contract target=(Features[T]).StorageScore props=C11 stable opaque=iface:(NonEphemeralObject).StorageScore
func c_Features_StorageScore(x Features[BasicOutputFeature], s *StorageScoreStructure) {
	g.Requires(structOK(s) && len(x) <= 1<<20 && g.Forall(0, len(x), func(i int) bool { return x[i] != nil && smallScore(x[i].StorageScore(s, nil)) }))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.Sum(0, len(x), func(i int) g.Int { return scoreOf(x[i], s) })), "the storage score of a list is the exact sum over its elements")
}

//gvc:invariant for=c_Features_StorageScore
func inv_Features_StorageScore(f Features[BasicOutputFeature], storageScoreStruct *StorageScoreStructure, sumCost StorageScore, i int) bool {
	return g.N(sumCost).Eq(g.Sum(0, i, func(k int) g.Int { return scoreOf(f[k], storageScoreStruct) })) && sumCost <= StorageScore(i)*(1<<40)
}

//gvc:contract target=(BlockIssuerKeys).StorageScore props=C11 stable opaque=iface:(NonEphemeralObject).StorageScore
func c_BlockIssuerKeys_StorageScore(x BlockIssuerKeys, s *StorageScoreStructure) {
	g.Requires(structOK(s) && len(x) <= 1<<20 && g.Forall(0, len(x), func(i int) bool { return x[i] != nil && smallScore(x[i].StorageScore(s, nil)) }))
	g.Ensures(g.N(x.StorageScore(s, nil)).Eq(g.Sum(0, len(x), func(i int) g.Int { return scoreOf(x[i], s) })), "the storage score of a list is the exact sum over its elements")
}

//gvc:invariant for=c_BlockIssuerKeys_StorageScore
func inv_BlockIssuerKeys_StorageScore(keys BlockIssuerKeys, storageScoreStruct *StorageScoreStructure, storageScore StorageScore, i int) bool {
	return g.N(storageScore).Eq(g.Sum(0, i, func(k int) g.Int { return scoreOf(keys[k], storageScoreStruct) })) && storageScore <= StorageScore(i)*(1<<40)
}

//gvc:contract target=(*StorageScoreStructure).MinStorageDepositForReturnOutput props=C11 stable opaque=(*MultiAddress).Size,(*RestrictedAddress).Size
func c_MinStorageDepositForReturnOutput(s *StorageScoreStructure, a Address) {
	g.Requires(structOK(s) && a != nil && smallSize(a.Size()) && smallScore(a.StorageScore(s, nil)))
	r, err := s.MinStorageDepositForReturnOutput(a)
	// a basic output that holds nothing but its address
	size := g.K(1 + 8 + 8 + 1 + 1 + 1).Add(g.N(a.Size()))
	score := g.N(s.OffsetOutput).Add(g.N(s.StorageScoreParameters.FactorData).Mul(size)).Add(scoreOf(a, s))
	cost := g.N(s.StorageScoreParameters.StorageCost).Mul(score)
	g.Ensures((err == nil) == cost.Lt(g.Pow2(64)), "an error exactly if the cost overflows")
	g.Ensures(g.Implies(err == nil, g.N(r).Eq(cost)), "the deposit of a return output is that of a basic output with nothing but its address")
}

//gvc:contract target=NewStorageScoreStructure props=C11
func c_NewStorageScoreStructure(p *StorageScoreParameters) {
	g.Requires(p != nil && smallScore(p.OffsetOutputOverhead) && smallScore(p.OffsetEd25519BlockIssuerKey))
	s := NewStorageScoreStructure(p)
	f := g.N(p.FactorData)
	g.Ensures(g.N(s.OffsetOutput).Eq(g.N(p.OffsetOutputOverhead).Add(f.Mul(g.K(OutputIDLength+BlockIDLength+SlotIndexLength)))), "the offset of an output is its overhead and its metadata")
	// a minimal block issuer account (its identifier, foundry counter, feature with one key and empty list of immutable features) in excess of a basic output
	g.Ensures(g.N(s.OffsetImplicitAccountCreationAddress).Eq(f.Mul(g.K(32+4+1+(1+4+1+33))).Add(g.N(p.OffsetEd25519BlockIssuerKey))), "an implicit account creation address costs what a block issuer account has in excess of a basic output")
	g.Ensures(s.StorageScoreParameters == p, "the structure keeps its parameters")
}
