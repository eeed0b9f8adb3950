package iotago

import (
	"encoding/binary"
	"math/big"

	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// addrOK: an address value without nil parts.
func addrOK(a Address) bool {
	if a == nil {
		return false
	}
	switch x := a.(type) {
	case *MultiAddress:
		return g.Forall(0, len(x.Addresses), func(i int) bool { return x.Addresses[i] != nil && x.Addresses[i].Address != nil })
	case *RestrictedAddress:
		return x.Address != nil
	}
	return true
}

func genID(r *g.Rand, b []byte) {
	b[0] = byte(r.Intn(3))
	if r.Intn(3) == 0 {
		b[len(b)-1] = byte(r.Intn(3))
	}
}

//gvc:gen
func gen_Address(r *g.Rand) Address { return genAddr(r, true) }

func genAddr(r *g.Rand, nested bool) Address {
	n := 7
	if !nested {
		n = 5
	}
	switch r.Intn(n) {
	case 0:
		a := &AccountAddress{}
		genID(r, a[:])
		return a
	case 1:
		a := &NFTAddress{}
		genID(r, a[:])
		return a
	case 2:
		a := &AnchorAddress{}
		genID(r, a[:])
		return a
	case 3:
		a := &ImplicitAccountCreationAddress{}
		genID(r, a[:])
		return a
	case 5:
		var l AddressesWithWeight
		for i := r.Intn(3); i >= 0; i-- {
			l = append(l, &AddressWithWeight{Address: genAddr(r, false), Weight: byte(r.Intn(5) + 1)})
		}
		return &MultiAddress{Addresses: l, Threshold: uint16(r.Intn(6))}
	case 6:
		m := AddressCapabilitiesBitMask{}
		for i := r.Intn(3); i > 0; i-- {
			m = append(m, byte(r.Num()))
		}
		return &RestrictedAddress{Address: genAddr(r, r.Intn(3) == 0), AllowedCapabilities: m}
	}
	a := &Ed25519Address{}
	genID(r, a[:])
	return a
}

func genUC(r *g.Rand, k int) UnlockCondition {
	switch k {
	case 0:
		return &AddressUnlockCondition{Address: genAddr(r, true)}
	case 1:
		return &StorageDepositReturnUnlockCondition{ReturnAddress: genAddr(r, true), Amount: BaseToken(r.Num())}
	case 2:
		return &TimelockUnlockCondition{Slot: SlotIndex(r.Num())}
	case 3:
		return &ExpirationUnlockCondition{ReturnAddress: genAddr(r, true), Slot: SlotIndex(r.Num())}
	case 4:
		return &StateControllerAddressUnlockCondition{Address: genAddr(r, true)}
	case 5:
		return &GovernorAddressUnlockCondition{Address: genAddr(r, true)}
	}
	a := &AccountAddress{}
	genID(r, a[:])
	return &ImmutableAccountUnlockCondition{Address: a}
}

//gvc:gen
func gen_UnlockConditionSet(r *g.Rand) UnlockConditionSet {
	s := UnlockConditionSet{}
	for k := 0; k < 7; k++ {
		if r.Intn(2) == 0 {
			u := genUC(r, k)
			s[u.Type()] = u
		}
	}
	return s
}

// unlock condition and feature lists: unique kinds in ascending order, mostly the ones the output type allows.
func genUCList[T UnlockCondition](r *g.Rand, must []int, opt []int) UnlockConditions[T] {
	var l UnlockConditions[T]
	for k := 0; k < 7; k++ {
		in := r.Intn(60) == 0
		for _, m := range must {
			in = in || m == k && r.Intn(40) > 0
		}
		for _, m := range opt {
			in = in || m == k && r.Intn(3) == 0
		}
		if in {
			l = append(l, genUC(r, k).(T))
		}
	}
	if r.Intn(50) == 0 && len(l) > 0 {
		l = append(l, l[r.Intn(len(l))])
	}
	return l
}

func genFeature(r *g.Rand, k int) Feature {
	switch k {
	case 0:
		return &SenderFeature{Address: genAddr(r, true)}
	case 1:
		return &IssuerFeature{Address: genAddr(r, true)}
	case 2:
		return &MetadataFeature{Entries: MetadataFeatureEntries{MetadataFeatureEntriesKey([]string{"a", "b"}[r.Intn(2)]): MetadataFeatureEntriesValue{byte(r.Intn(2))}}}
	case 3:
		return &StateMetadataFeature{Entries: StateMetadataFeatureEntries{StateMetadataFeatureEntriesKey([]string{"a", "b"}[r.Intn(2)]): StateMetadataFeatureEntriesValue{byte(r.Intn(2))}}}
	case 4:
		return &TagFeature{Tag: []byte{byte(r.Intn(2))}}
	case 5:
		f := &NativeTokenFeature{Amount: new(big.Int).SetUint64(r.Num())}
		genID(r, f.ID[:])
		return f
	case 6:
		f := &BlockIssuerFeature{ExpirySlot: SlotIndex(r.Num())}
		for i := r.Intn(3); i >= 0; i-- {
			k := &Ed25519PublicKeyHashBlockIssuerKey{}
			k.PublicKeyHash[0] = byte(r.Intn(4))
			f.BlockIssuerKeys = append(f.BlockIssuerKeys, k)
		}
		return f
	}
	return &StakingFeature{StakedAmount: BaseToken(r.Num()), FixedCost: Mana(r.Num()), StartEpoch: EpochIndex(r.Num()), EndEpoch: EpochIndex(r.Num())}
}

func genFeatList[T Feature](r *g.Rand, opt ...int) Features[T] {
	var l Features[T]
	for k := 0; k < 8; k++ {
		in := r.Intn(80) == 0
		for _, m := range opt {
			in = in || m == k && r.Intn(2) == 0
		}
		if in {
			l = append(l, genFeature(r, k).(T))
		}
	}
	if r.Intn(50) == 0 && len(l) > 0 {
		l = append(l, l[r.Intn(len(l))])
	}
	return l
}

//gvc:gen
func gen_Feature(r *g.Rand) Feature { return genFeature(r, r.Intn(8)) }

//gvc:gen
func gen_UnlockCondition(r *g.Rand) UnlockCondition { return genUC(r, r.Intn(7)) }

//gvc:gen
func gen_BasicUC(r *g.Rand) BasicOutputUnlockConditions {
	return genUCList[BasicOutputUnlockCondition](r, []int{0}, []int{1, 2, 3})
}

//gvc:gen
func gen_AccountUC(r *g.Rand) AccountOutputUnlockConditions {
	return genUCList[AccountOutputUnlockCondition](r, []int{0}, nil)
}

//gvc:gen
func gen_AnchorUC(r *g.Rand) AnchorOutputUnlockConditions {
	return genUCList[AnchorOutputUnlockCondition](r, []int{4, 5}, nil)
}

//gvc:gen
func gen_NFTUC(r *g.Rand) NFTOutputUnlockConditions {
	return genUCList[NFTOutputUnlockCondition](r, []int{0}, []int{1, 2, 3})
}

//gvc:gen
func gen_FoundryUC(r *g.Rand) FoundryOutputUnlockConditions {
	return genUCList[FoundryOutputUnlockCondition](r, []int{6}, nil)
}

//gvc:gen
func gen_DelegationUC(r *g.Rand) DelegationOutputUnlockConditions {
	return genUCList[DelegationOutputUnlockCondition](r, []int{0}, nil)
}

//gvc:gen
func gen_BasicF(r *g.Rand) BasicOutputFeatures { return genFeatList[BasicOutputFeature](r, 0, 2, 4, 5) }

//gvc:gen
func gen_AccountF(r *g.Rand) AccountOutputFeatures {
	return genFeatList[AccountOutputFeature](r, 0, 2, 6, 7)
}

//gvc:gen
func gen_AccountIF(r *g.Rand) AccountOutputImmFeatures {
	return genFeatList[AccountOutputImmFeature](r, 1, 2)
}

//gvc:gen
func gen_AnchorF(r *g.Rand) AnchorOutputFeatures { return genFeatList[AnchorOutputFeature](r, 2, 3) }

//gvc:gen
func gen_AnchorIF(r *g.Rand) AnchorOutputImmFeatures {
	return genFeatList[AnchorOutputImmFeature](r, 1, 2)
}

//gvc:gen
func gen_NFTF(r *g.Rand) NFTOutputFeatures { return genFeatList[NFTOutputFeature](r, 0, 2, 4) }

//gvc:gen
func gen_NFTIF(r *g.Rand) NFTOutputImmFeatures { return genFeatList[NFTOutputImmFeature](r, 1, 2) }

//gvc:gen
func gen_FoundryF(r *g.Rand) FoundryOutputFeatures { return genFeatList[FoundryOutputFeature](r, 2, 5) }

//gvc:gen
func gen_FoundryIF(r *g.Rand) FoundryOutputImmFeatures {
	return genFeatList[FoundryOutputImmFeature](r, 2)
}

//gvc:gen
func gen_SimpleTokenScheme(r *g.Rand) *SimpleTokenScheme {
	n := func() *big.Int {
		if r.Intn(3) == 0 {
			return new(big.Int).SetUint64(r.Num())
		}
		return big.NewInt(int64(r.Intn(6)))
	}
	return &SimpleTokenScheme{MintedTokens: n(), MeltedTokens: n(), MaximumSupply: n()}
}

var baseAPI *v3api

func genAge(r *g.Rand) SlotIndex {
	if r.Intn(3) == 0 {
		return SlotIndex(r.Num())
	}
	return SlotIndex(r.Intn(30))
}

//gvc:gen
func gen_ProtocolParameters(r *g.Rand) ProtocolParameters { return gen_V3ProtocolParameters(r) }

//gvc:gen
func gen_V3ProtocolParameters(r *g.Rand) *V3ProtocolParameters {
	if baseAPI == nil {
		baseAPI = V3API(NewV3SnapshotProtocolParameters()).(*v3api)
	}
	p := *baseAPI.protocolParameters
	b := &p.basicProtocolParameters
	t := gen_TimeProvider(r)
	m := gen_ManaParameters(r)
	b.GenesisSlot, b.GenesisUnixTimestamp, b.SlotDurationInSeconds, b.SlotsPerEpochExponent = t.genesisSlot, t.genesisUnixTime, uint8(t.slotDurationSeconds), t.slotsPerEpochExponent
	b.ManaParameters = *m
	b.MinCommittableAge = genAge(r)
	b.MaxCommittableAge = genAge(r)
	if b.MaxCommittableAge < b.MinCommittableAge && r.Intn(8) > 0 {
		b.MinCommittableAge, b.MaxCommittableAge = b.MaxCommittableAge, b.MinCommittableAge
	}
	b.StakingUnbondingPeriod = EpochIndex(r.Intn(5))
	b.EpochNearingThreshold = genAge(r)
	b.TokenSupply = BaseToken(r.Num())
	s := g.Gen[StorageScoreParameters](r)
	s.StorageCost = BaseToken(r.Intn(4))
	b.StorageScoreParameters = s
	return &p
}

//gvc:gen
func gen_API(r *g.Rand) API {
	p := gen_V3ProtocolParameters(r)
	a := *baseAPI
	a.protocolParameters = p
	a.storageScoreStructure = NewStorageScoreStructure(p.StorageScoreParameters())
	a.timeProvider = NewTimeProvider(p.GenesisSlot(), p.GenesisUnixTimestamp(), int64(p.SlotDurationInSeconds()), p.SlotsPerEpochExponent())
	a.manaDecayProvider = NewManaDecayProvider(a.timeProvider, p.SlotsPerEpochExponent(), p.ManaParameters())
	return &a
}

// gen_Output draws an output of any kind.
//
//gvc:gen
func gen_Output(r *g.Rand) Output {
	switch r.Intn(9) {
	case 0:
		o := g.Gen[AccountOutput](r)
		return &o
	case 1:
		o := g.Gen[AnchorOutput](r)
		return &o
	case 2:
		o := g.Gen[NFTOutput](r)
		return &o
	case 3:
		o := g.Gen[FoundryOutput](r)
		o.TokenScheme = gen_SimpleTokenScheme(r)
		return &o
	case 4:
		o := g.Gen[DelegationOutput](r)
		return &o
	}
	o := g.Gen[BasicOutput](r)
	return &o
}

//gvc:gen
func gen_TxEssenceOutput(r *g.Rand) TxEssenceOutput { return gen_Output(r) }

//gvc:gen
func gen_BaseToken(r *g.Rand) BaseToken {
	if r.Intn(3) > 0 {
		return BaseToken(r.Intn(40))
	}
	return BaseToken(r.Num())
}

//gvc:gen
func gen_Mana(r *g.Rand) Mana {
	if r.Intn(3) > 0 {
		return Mana(r.Intn(40))
	}
	return Mana(r.Num())
}

//gvc:gen
func gen_SlotIndex(r *g.Rand) SlotIndex {
	if r.Intn(3) > 0 {
		return SlotIndex(r.Intn(60))
	}
	return SlotIndex(r.Num())
}

//gvc:gen
func gen_EpochIndex(r *g.Rand) EpochIndex {
	if r.Intn(3) > 0 {
		return EpochIndex(r.Intn(30))
	}
	return EpochIndex(r.Num())
}

//gvc:gen
func gen_TransactionID(r *g.Rand) TransactionID {
	var id TransactionID
	id[0] = byte(r.Intn(4))
	binary.LittleEndian.PutUint32(id[IdentifierLength:], uint32(gen_SlotIndex(r)))
	return id
}

//gvc:gen
func gen_OutputID(r *g.Rand) OutputID {
	var id OutputID
	t := gen_TransactionID(r)
	copy(id[:], t[:])
	id[TransactionIDLength] = byte(r.Intn(3))
	return id
}

//gvc:gen
func gen_Transaction(r *g.Rand) *Transaction {
	t := &Transaction{API: gen_API(r), TransactionEssence: &TransactionEssence{NetworkID: NetworkID(r.Num()), CreationSlot: gen_SlotIndex(r)}}
	for i := r.Intn(4); i > 0; i-- {
		id := gen_OutputID(r)
		t.TransactionEssence.Inputs = append(t.TransactionEssence.Inputs, id.UTXOInput())
	}
	for i := r.Intn(4); i > 0; i-- {
		t.Outputs = append(t.Outputs, gen_Output(r))
	}
	for i := r.Intn(3); i > 0; i-- {
		a := &Allotment{Mana: gen_Mana(r)}
		genID(r, a.AccountID[:])
		t.Allotments = append(t.Allotments, a)
	}
	t.TransactionEssence.ContextInputs = g.Gen[TxEssenceContextInputs](r)
	if r.Intn(2) == 0 {
		t.Capabilities = TransactionCapabilitiesBitMask{byte(r.Num())}
	}
	if r.Intn(3) == 0 {
		t.Payload = &TaggedData{Tag: []byte{1}, Data: []byte{byte(r.Num())}}
	}
	return t
}
