package iotago

import (
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// specDecay is the mathematical definition of mana decay: the factors of the lookup table (scaled by 2^exp) are applied
// with exact integer arithmetic, rounding down after every application.
//
//gvc:ghost
func specDecay(factors []uint64, exp uint64, v g.Int, n g.Int) g.Int {
	if n.Le(g.K(0)) || len(factors) == 0 || v.Eq(g.K(0)) {
		return v
	}
	d := g.If(n.Gt(g.K(len(factors))), g.K(len(factors)), n)
	return specDecay(factors, exp, v.Mul(specFactor(factors, d.Sub(g.K(1)))).Div(g.Pow2(exp)), n.Sub(d))
}

func specFactor(factors []uint64, i g.Int) g.Int { return g.N(factors[g.ToInt(i)]) }

// specGen is floor(amount * slots * rate / 2^exp).
func specGen(p *ManaDecayProvider, amount BaseToken, slots SlotIndex) g.Int {
	return g.N(amount).Mul(g.N(slots)).Mul(g.N(p.generationRate)).Div(g.Pow2(p.generationRateExponent))
}

// mdpValid: the representation invariant of ManaDecayProvider, for protocol parameters in range.
func mdpValid(p *ManaDecayProvider) bool {
	return p != nil && tpValid(p.timeProvider) &&
		p.decayFactorsLength <= 65535 && g.N(p.decayFactorsLength).Eq(g.K(len(p.decayFactors))) &&
		p.decayFactorsExponent <= 32 &&
		g.Forall(0, len(p.decayFactors), func(i int) bool {
			return g.N(p.decayFactors[i]).Le(g.Pow2(p.decayFactorsExponent)) && p.decayFactors[i] <= 0xffffffff
		}) &&
		p.generationRate <= 255 && p.generationRateExponent <= 63 &&
		p.decayFactorEpochsSum <= 0xffffffff && p.decayFactorEpochsSumExponent <= 63 &&
		p.slotsPerEpochExponent <= 31
}

//gvc:contract target=NewManaDecayProvider props=C01 nopanic
func c_NewManaDecayProvider(tp *TimeProvider, spe uint8, mp *ManaParameters) {
	g.Requires(mp != nil && tpValid(tp) && spe <= 31 && mp.DecayFactorsExponent <= 32 && mp.GenerationRateExponent <= 63 && mp.DecayFactorEpochsSumExponent <= 63 && len(mp.DecayFactors) <= 65535)
	g.Requires(g.Forall(0, len(mp.DecayFactors), func(i int) bool { return g.N(mp.DecayFactors[i]).Le(g.Pow2(mp.DecayFactorsExponent)) }))
	p := NewManaDecayProvider(tp, spe, mp)
	g.Ensures(mdpValid(p), "representation invariant")
	g.Ensures(g.Same(p.timeProvider, tp) && g.N(p.slotsPerEpochExponent).Eq(g.N(spe)) && g.N(p.generationRate).Eq(g.N(mp.GenerationRate)) && g.N(p.generationRateExponent).Eq(g.N(mp.GenerationRateExponent)), "generation parameters are kept")
	g.Ensures(g.N(p.decayFactorsExponent).Eq(g.N(mp.DecayFactorsExponent)) && g.N(p.decayFactorEpochsSum).Eq(g.N(mp.DecayFactorEpochsSum)) && g.N(p.decayFactorEpochsSumExponent).Eq(g.N(mp.DecayFactorEpochsSumExponent)), "decay parameters are kept")
	g.Ensures(len(p.decayFactors) == len(mp.DecayFactors) && g.Forall(0, len(mp.DecayFactors), func(i int) bool { return g.N(p.decayFactors[i]).Eq(g.N(mp.DecayFactors[i])) }), "the decay table is kept")
}

//gvc:invariant for=c_NewManaDecayProvider
func inv_Map(source []uint32, target []uint64, i int) bool {
	return g.Forall(0, i, func(k int) bool { return g.N(target[k]).Eq(g.N(source[k])) })
}

//gvc:contract target=splitUint64 props=C01 nopanic
func c_splitUint64(v uint64) {
	hi, lo := splitUint64(v)
	g.Ensures(g.N(hi).Mul(g.Pow2(32)).Add(g.N(lo)).Eq(g.N(v)) && g.N(lo).Lt(g.Pow2(32)), "value = hi * 2^32 + lo")
	g.Ensures(mergeUint64(hi, lo) == v, "merge is the inverse of split")
}

//gvc:contract target=fixedPointMultiplication32Splitted props=C01 nopanic modular split=scale:0..32
func c_fixedPointMultiplication32Splitted(valueHi uint64, valueLo uint64, factor uint64, scale uint64) (uint64, uint64, error) {
	g.Requires(valueHi <= 0xffffffff && valueLo <= 0xffffffff && factor <= 0xffffffff)
	hi, lo, err := fixedPointMultiplication32Splitted(valueHi, valueLo, factor, scale)
	g.Ensures((err != nil) == (scale > 32), "error iff the scale exceeds 32")
	if err == nil {
		v := g.N(valueHi).Mul(g.Pow2(32)).Add(g.N(valueLo))
		g.Ensures(g.N(hi).Mul(g.Pow2(32)).Add(g.N(lo)).Eq(v.Mul(g.N(factor)).Div(g.Pow2(scale))), "result = floor(value * factor / 2^scale)")
		g.Ensures(lo <= 0xffffffff, "the low part has 32 bits")
		g.Ensures(g.Implies(valueHi == 0 && valueLo == 0, hi == 0 && lo == 0), "zero stays zero")
	}
	return hi, lo, err
}

//gvc:contract target=fixedPointMultiplication32 props=C01 nopanic modular split=scale:0..95
func c_fixedPointMultiplication32(value uint64, factor uint64, scale uint64) (uint64, error) {
	g.Requires(factor <= 0xffffffff && scale <= 95)
	x := g.N(value).Mul(g.N(factor)).Div(g.Pow2(scale))
	g.Requires(x.Lt(g.Pow2(64)))
	r, err := fixedPointMultiplication32(value, factor, scale)
	g.Ensures(err == nil, "no error")
	g.Ensures(g.N(r).Eq(x), "result = floor(value * factor / 2^scale)")
	return r, err
}

//gvc:contract target=(*ManaDecayProvider).decay props=C01 nopanic modular
func c_decay(p *ManaDecayProvider, value Mana, epochDiff EpochIndex) (Mana, error) {
	g.Requires(mdpValid(p))
	g.NativeLimit(epochDiff < 100000)
	r, err := p.decay(value, epochDiff)
	g.Ensures(err == nil, "decay does not fail")
	d := specDecay(p.decayFactors, p.decayFactorsExponent, g.N(value), g.N(epochDiff))
	g.Ensures(g.N(r).Eq(d), "decay applies the table exactly")
	g.Ensures(r <= value, "decay never increases mana")
	return r, err
}

//gvc:invariant for=c_decay
func inv_decay_value(p *ManaDecayProvider, value Mana, epochDiff EpochIndex, remainingEpochDiff EpochIndex, valueHi uint64, valueLo uint64) bool {
	return specDecay(p.decayFactors, p.decayFactorsExponent, g.N(valueHi).Mul(g.Pow2(32)).Add(g.N(valueLo)), g.N(remainingEpochDiff)).Eq(specDecay(p.decayFactors, p.decayFactorsExponent, g.N(value), g.N(epochDiff)))
}

//gvc:invariant for=c_decay
func inv_decay_bound(value Mana, valueHi uint64, valueLo uint64) bool {
	return valueLo <= 0xffffffff && g.N(valueHi).Mul(g.Pow2(32)).Add(g.N(valueLo)).Le(g.N(value))
}

//gvc:contract target=(*ManaDecayProvider).DecayManaByEpochs props=C01 nopanic modular
func c_DecayManaByEpochs(p *ManaDecayProvider, mana Mana, creationEpoch EpochIndex, targetEpoch EpochIndex) (Mana, error) {
	g.Requires(mdpValid(p))
	g.NativeLimit(creationEpoch > targetEpoch || targetEpoch-creationEpoch < 100000)
	r, err := p.DecayManaByEpochs(mana, creationEpoch, targetEpoch)
	g.Ensures((err != nil) == (creationEpoch > targetEpoch), "error iff the creation epoch exceeds the target epoch")
	if err == nil {
		d := specDecay(p.decayFactors, p.decayFactorsExponent, g.N(mana), g.N(targetEpoch).Sub(g.N(creationEpoch)))
		g.Ensures(g.N(r).Eq(d), "decay over the epoch difference")
		g.Ensures(r <= mana, "decay never increases mana")
	}
	return r, err
}

//gvc:contract target=(*ManaDecayProvider).DecayManaBySlots props=C01 nopanic modular
func c_DecayManaBySlots(p *ManaDecayProvider, mana Mana, creationSlot SlotIndex, targetSlot SlotIndex) (Mana, error) {
	g.Requires(mdpValid(p))
	g.NativeLimit(creationSlot > targetSlot || targetSlot-creationSlot < 100000)
	r, err := p.DecayManaBySlots(mana, creationSlot, targetSlot)
	ce, te := tpEpoch(p.timeProvider, creationSlot), tpEpoch(p.timeProvider, targetSlot)
	g.Ensures((err != nil) == ce.Gt(te), "error iff the creation epoch exceeds the target epoch")
	if err == nil {
		d := specDecay(p.decayFactors, p.decayFactorsExponent, g.N(mana), te.Sub(ce))
		g.Ensures(g.N(r).Eq(d), "decay over the epochs between the slots")
		g.Ensures(r <= mana, "decay never increases mana")
	}
	return r, err
}

//gvc:contract target=(*ManaDecayProvider).generateMana props=C01 nopanic modular
func c_generateMana(p *ManaDecayProvider, value BaseToken, slotDiff SlotIndex) (Mana, error) {
	g.Requires(mdpValid(p))
	g.Requires(g.N(slotDiff).Mul(g.N(p.generationRate)).Lt(g.Pow2(32)))
	g.Requires(specGen(p, value, slotDiff).Lt(g.Pow2(64)))
	r, err := p.generateMana(value, slotDiff)
	g.Ensures(err == nil, "generation does not fail")
	g.Ensures(g.N(r).Eq(specGen(p, value, slotDiff)), "generated mana = floor(amount * slots * rate / 2^exponent)")
	return r, err
}

//gvc:contract target=(*ManaDecayProvider).GenerateManaAndDecayBySlots props=C01 nopanic paths
func c_GenerateManaAndDecayBySlots(p *ManaDecayProvider, amount BaseToken, creationSlot SlotIndex, targetSlot SlotIndex) (Mana, error) {
	g.Requires(mdpValid(p))
	g.NativeLimit(creationSlot > targetSlot || targetSlot-creationSlot < 100000)
	tp := p.timeProvider
	before, since := tp.SlotsBeforeNextEpoch(creationSlot), tp.SlotsSinceEpochStart(targetSlot)
	// the generation factors fit the 32 bits the fixed-point multiplication supports, and the products fit Mana
	g.Requires(g.N(before).Mul(g.N(p.generationRate)).Lt(g.Pow2(32)) && g.N(since).Mul(g.N(p.generationRate)).Lt(g.Pow2(32)))
	g.Requires(specGen(p, amount, before).Lt(g.Pow2(64)) && specGen(p, amount, since).Lt(g.Pow2(64)))
	g.Requires(creationSlot > targetSlot || tp.EpochFromSlot(creationSlot) < tp.EpochFromSlot(targetSlot) || g.N(targetSlot-creationSlot).Mul(g.N(p.generationRate)).Lt(g.Pow2(32)) && specGen(p, amount, targetSlot-creationSlot).Lt(g.Pow2(64)))
	g.Requires(g.N(p.decayFactorEpochsSum).Mul(g.N(p.generationRate)).Lt(g.Pow2(32)))
	g.Requires(p.decayFactorEpochsSumExponent+p.generationRateExponent >= p.slotsPerEpochExponent && p.decayFactorEpochsSumExponent+p.generationRateExponent-p.slotsPerEpochExponent <= 95)
	c := g.N(amount).Mul(g.N(p.decayFactorEpochsSum).Mul(g.N(p.generationRate))).Div(g.Pow2(p.decayFactorEpochsSumExponent + p.generationRateExponent - p.slotsPerEpochExponent))
	g.Requires(c.Lt(g.Pow2(64)))
	r, err := p.GenerateManaAndDecayBySlots(amount, creationSlot, targetSlot)
	n := g.N(tp.EpochFromSlot(targetSlot) - tp.EpochFromSlot(creationSlot))
	if creationSlot > targetSlot {
		g.Ensures(err != nil, "error when the creation slot exceeds the target slot")
	} else if n.Eq(g.K(0)) {
		g.Ensures(err == nil, "no error within one epoch")
		g.Ensures(g.N(r).Eq(specGen(p, amount, targetSlot-creationSlot)), "within one epoch mana is generated without decay")
	} else if n.Eq(g.K(1)) {
		s := specDecay(p.decayFactors, p.decayFactorsExponent, specGen(p, amount, before), g.K(1)).Add(specGen(p, amount, since))
		g.Ensures((err == nil) == s.Lt(g.Pow2(64)), "adjacent epochs: error iff the sum overflows")
		g.Ensures(g.Implies(err == nil, g.N(r).Eq(s)), "adjacent epochs: the first part is decayed by one epoch")
	} else {
		mid := c.Sub(specDecay(p.decayFactors, p.decayFactorsExponent, c, n.Sub(g.K(1))))
		s := specDecay(p.decayFactors, p.decayFactorsExponent, specGen(p, amount, before), n).Add(mid).Add(specGen(p, amount, since))
		res := s.Sub(c.Div(g.Pow2(p.decayFactorsExponent)))
		g.Ensures((err == nil) == (s.Lt(g.Pow2(64)) && res.Ge(g.K(0))), "several epochs: error iff the result is out of range")
		g.Ensures(g.Implies(err == nil, g.N(r).Eq(res)), "several epochs: first, intermediate and last epoch parts")
	}
	return r, err
}

//gvc:gen
func gen_ManaDecayProvider(r *g.Rand) *ManaDecayProvider {
	spe := uint8(6 + r.Intn(8))
	if r.Intn(8) == 0 {
		spe = uint8(r.Intn(6))
	}
	gs := SlotIndex(0)
	if r.Intn(2) == 0 {
		gs = SlotIndex(r.Intn(1000))
	}
	tp := NewTimeProvider(gs, int64(r.Num()>>24), int64(r.Intn(255)+1), spe)
	exp := uint8(32 - r.Intn(2)*r.Intn(20))
	mp := &ManaParameters{BitsCount: 63, GenerationRate: uint8(r.Intn(3)), GenerationRateExponent: uint8(10 + r.Intn(20)), DecayFactorsExponent: exp, DecayFactorEpochsSum: uint32(r.Num() >> 33), DecayFactorEpochsSumExponent: uint8(15 + r.Intn(10))}
	for i := genFactors(r); i > 0; i-- {
		mp.DecayFactors = append(mp.DecayFactors, uint32(uint64(1)<<exp-1-r.Num()%(uint64(1)<<exp)))
	}
	return NewManaDecayProvider(tp, spe, mp)
}

//gvc:gen
func gen_ManaParameters(r *g.Rand) *ManaParameters {
	exp := uint8(32 - r.Intn(2)*r.Intn(20))
	mp := &ManaParameters{BitsCount: 63, GenerationRate: uint8(r.Intn(3)), GenerationRateExponent: uint8(10 + r.Intn(20)), DecayFactorsExponent: exp, DecayFactorEpochsSum: uint32(r.Num() >> 33), DecayFactorEpochsSumExponent: uint8(15 + r.Intn(10))}
	for i := genFactors(r); i > 0; i-- {
		mp.DecayFactors = append(mp.DecayFactors, uint32(uint64(1)<<exp-1-r.Num()%(uint64(1)<<exp)))
	}
	return mp
}

//gvc:contract target=PotentialMana props=C04 opaque=(*ManaDecayProvider).GenerateManaAndDecayBySlots,(*StorageScoreStructure).MinDeposit
func c_PotentialMana(p *ManaDecayProvider, s *StorageScoreStructure, o Output, creation SlotIndex, target SlotIndex) {
	g.Requires(p != nil && s != nil && o != nil)
	r, err := PotentialMana(p, s, o, creation, target)
	min, e := s.MinDeposit(o)
	if e != nil {
		g.Ensures(r == 0 && err != nil, "an error in the minimum deposit is returned")
	} else if o.BaseTokenAmount() < min {
		g.Ensures(r == 0 && err == nil, "without the minimum deposit no mana is generated")
	} else {
		x, ex := p.GenerateManaAndDecayBySlots(o.BaseTokenAmount()-min, creation, target)
		g.Ensures((err == nil) == (ex == nil) && g.Implies(ex == nil, r == x), "only the amount above the minimum deposit generates mana")
	}
}

func genFactors(r *g.Rand) int {
	if r.Intn(16) == 0 {
		return r.Intn(5)
	}
	return 100 + r.Intn(300)
}
