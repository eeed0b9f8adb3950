package iotago

import (
	"time"

	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// tpValid: the representation invariant of TimeProvider (established by NewTimeProvider for protocol parameters in range).
func tpValid(t *TimeProvider) bool {
	return t != nil &&
		t.slotDurationSeconds >= 1 && t.slotDurationSeconds <= 255 &&
		t.slotsPerEpochExponent <= 31 &&
		g.N(t.genesisUnixTime).Ge(g.Pow2(40).Neg()) && g.N(t.genesisUnixTime).Le(g.Pow2(40)) &&
		g.Time(t.genesisTime).Eq(g.N(t.genesisUnixTime).Mul(g.K(1000000000))) &&
		g.N(t.epochDurationSlots).Eq(g.Pow2(t.slotsPerEpochExponent)) &&
		g.N(t.epochDurationSeconds).Eq(g.Pow2(t.slotsPerEpochExponent).Mul(g.N(t.slotDurationSeconds)))
}

// tpEpoch is the epoch of a slot: floor((slot - genesis) / 2^e), 0 for slots up to genesis.
func tpEpoch(t *TimeProvider, slot SlotIndex) g.Int {
	return g.If(slot <= t.genesisSlot, g.K(0), g.N(slot).Sub(g.N(t.genesisSlot)).Div(g.Pow2(t.slotsPerEpochExponent)))
}

//gvc:contract target=NewTimeProvider props=C02 nopanic
func c_NewTimeProvider(genesisSlot SlotIndex, genesisUnixTime int64, slotDurationSeconds int64, slotsPerEpochExponent uint8) {
	g.Requires(slotDurationSeconds >= 1 && slotDurationSeconds <= 255)
	g.Requires(slotsPerEpochExponent <= 31)
	g.Requires(g.N(genesisUnixTime).Ge(g.Pow2(40).Neg()) && g.N(genesisUnixTime).Le(g.Pow2(40)))
	t := NewTimeProvider(genesisSlot, genesisUnixTime, slotDurationSeconds, slotsPerEpochExponent)
	g.Ensures(tpValid(t), "representation invariant")
	g.Ensures(t.GenesisSlot() == genesisSlot && t.GenesisUnixTime() == genesisUnixTime && t.SlotDurationSeconds() == slotDurationSeconds && t.SlotsPerEpochExponent() == slotsPerEpochExponent, "parameters are kept")
	g.Ensures(g.N(t.EpochDurationSlots()).Eq(g.Pow2(slotsPerEpochExponent)) && t.EpochDurationSeconds() == t.epochDurationSeconds, "epoch duration accessors")
	g.Ensures(g.Time(t.GenesisTime()).Eq(g.N(genesisUnixTime).Mul(g.K(1000000000))), "genesis time")
}

//gvc:contract target=(*TimeProvider).SlotFromTime props=C02 nopanic
func c_SlotFromTime(t *TimeProvider, tm time.Time) SlotIndex {
	g.Requires(tpValid(t))
	el := g.Time(tm).Sub(g.Time(t.genesisTime))
	// within the range of time.Duration and of SlotIndex
	g.Requires(el.Lt(g.Pow2(63)) && el.Ge(g.Pow2(63).Neg()))
	slot := el.Div(g.N(t.slotDurationSeconds).Mul(g.K(1000000000))).Add(g.N(t.genesisSlot)).Add(g.K(1))
	g.Requires(slot.Lt(g.Pow2(32)))
	r := t.SlotFromTime(tm)
	g.Ensures(g.Implies(el.Lt(g.K(0)), r == t.genesisSlot), "times before genesis map to the genesis slot")
	g.Ensures(g.Implies(el.Ge(g.K(0)), g.N(r).Eq(slot)), "slot = genesis + 1 + floor(elapsed / slot duration)")
	return r
}

//gvc:contract target=(*TimeProvider).SlotFromTime props=C02 nopanic
func c_SlotFromTime_window(t *TimeProvider, tm time.Time) {
	g.Requires(tpValid(t))
	el := g.Time(tm).Sub(g.Time(t.genesisTime))
	g.Requires(el.Ge(g.K(0)) && el.Lt(g.Pow2(63)))
	g.Requires(g.N(t.genesisSlot).Add(el.Div(g.N(t.slotDurationSeconds).Mul(g.K(1000000000)))).Add(g.K(1)).Lt(g.Pow2(32)))
	r := t.SlotFromTime(tm)
	g.Ensures(g.Time(t.SlotStartTime(r)).Le(g.Time(tm)), "a time is not before the start of its slot")
	g.Ensures(g.Time(tm).Le(g.Time(t.SlotEndTime(r))), "a time is not after the end of its slot")
}

//gvc:contract target=(*TimeProvider).SlotStartTime props=C02 nopanic
func c_SlotStartTime(t *TimeProvider, slot SlotIndex) {
	g.Requires(tpValid(t))
	dur := g.N(t.slotDurationSeconds).Mul(g.K(1000000000))
	s, e := g.Time(t.SlotStartTime(slot)), g.Time(t.SlotEndTime(slot))
	if slot <= t.genesisSlot {
		g.Ensures(s.Eq(g.Time(t.genesisTime).Sub(g.K(1))), "slots up to genesis start just before the genesis time")
		g.Ensures(e.Eq(g.Time(t.genesisTime).Sub(g.K(1))), "slots up to genesis end just before the genesis time")
	} else {
		g.Ensures(s.Eq(g.Time(t.genesisTime).Add(g.N(slot).Sub(g.N(t.genesisSlot)).Sub(g.K(1)).Mul(dur))), "start time of the slot")
		g.Ensures(e.Eq(s.Add(dur).Sub(g.K(1))), "end time is one nanosecond before the next start")
		if slot != MaxSlotIndex {
			g.Ensures(e.Add(g.K(1)).Eq(g.Time(t.SlotStartTime(slot+1))), "slots tile the time line")
		}
	}
}

//gvc:contract target=(*TimeProvider).SlotFromTime props=C02 nopanic
func c_SlotFromTime_roundtrip(t *TimeProvider, slot SlotIndex) {
	g.Requires(tpValid(t))
	g.Requires(slot > t.genesisSlot)
	// the end of the slot lies within the range of time.Duration after genesis
	g.Requires(g.N(slot).Sub(g.N(t.genesisSlot)).Mul(g.N(t.slotDurationSeconds)).Mul(g.K(1000000000)).Lt(g.Pow2(63)))
	g.Ensures(t.SlotFromTime(t.SlotStartTime(slot)) == slot, "the start of a slot lies in the slot")
	g.Ensures(t.SlotFromTime(t.SlotEndTime(slot)) == slot, "the end of a slot lies in the slot")
}

//gvc:contract target=(*TimeProvider).EpochFromSlot props=C02 modular pure nopanic
func c_EpochFromSlot(t *TimeProvider, slot SlotIndex) EpochIndex {
	g.Requires(tpValid(t))
	r := t.EpochFromSlot(slot)
	g.Ensures(g.N(r).Eq(tpEpoch(t, slot)), "epoch = floor((slot - genesis) / 2^e)")
	return r
}

//gvc:contract target=(*TimeProvider).EpochStart props=C02 modular pure nopanic
func c_EpochStart(t *TimeProvider, epoch EpochIndex) SlotIndex {
	g.Requires(tpValid(t))
	v := g.N(t.genesisSlot).Add(g.N(epoch).Mul(g.Pow2(t.slotsPerEpochExponent)))
	r := t.EpochStart(epoch)
	g.Ensures(g.N(r).Eq(v.Mod(g.Pow2(32))), "epoch start = genesis + epoch * 2^e (mod 2^32)")
	return r
}

//gvc:contract target=(*TimeProvider).EpochEnd props=C02 nopanic
func c_EpochEnd(t *TimeProvider, epoch EpochIndex) SlotIndex {
	g.Requires(tpValid(t))
	v := g.N(t.genesisSlot).Add(g.N(epoch).Add(g.K(1)).Mul(g.Pow2(t.slotsPerEpochExponent))).Sub(g.K(1))
	g.Requires(v.Lt(g.Pow2(32)))
	r := t.EpochEnd(epoch)
	g.Ensures(g.N(r).Eq(v), "epoch end = genesis + (epoch + 1) * 2^e - 1")
	return r
}

//gvc:contract target=(*TimeProvider).EpochFromSlot props=C02 nopanic
func c_Epoch_containment(t *TimeProvider, slot SlotIndex, epoch EpochIndex) {
	g.Requires(tpValid(t))
	g.Requires(slot >= t.genesisSlot)
	end := g.N(t.genesisSlot).Add(tpEpoch(t, slot).Add(g.K(1)).Mul(g.Pow2(t.slotsPerEpochExponent)))
	g.Requires(end.Le(g.Pow2(32)))
	e := t.EpochFromSlot(slot)
	g.Ensures(t.EpochStart(e) <= slot && slot <= t.EpochEnd(e), "a slot lies within its epoch")
	g.Ensures(g.Implies(end.Lt(g.Pow2(32)), g.N(t.EpochStart(e+1)).Eq(end)), "epochs are contiguous")
}

// slotsBefore is the number of slots until the next epoch starts, for a slot that is not before genesis.
func slotsBefore(t *TimeProvider, slot SlotIndex) g.Int {
	p := g.Pow2(t.slotsPerEpochExponent)
	return p.Sub(g.N(slot).Sub(g.N(t.genesisSlot)).Mod(p))
}

func slotsSince(t *TimeProvider, slot SlotIndex) g.Int {
	return g.N(slot).Sub(g.N(t.genesisSlot)).Mod(g.Pow2(t.slotsPerEpochExponent))
}

//gvc:contract target=(*TimeProvider).SlotsBeforeNextEpoch props=C02 modular pure nopanic
func c_SlotsBeforeNextEpoch(t *TimeProvider, slot SlotIndex) SlotIndex {
	g.Requires(tpValid(t))
	r := t.SlotsBeforeNextEpoch(slot)
	g.Ensures(g.Implies(slot < t.genesisSlot, r == 0), "0 for slots before genesis")
	g.Ensures(g.Implies(t.genesisSlot == 0, g.N(r).Eq(slotsBefore(t, slot))), "slots before the next epoch (genesis slot 0)")
	// the code adds the genesis slot twice (known finding, below); nothing else may differ
	g.Ensures(g.Implies(slot >= t.genesisSlot, g.N(r).Eq(slotsBefore(t, slot)) || g.N(r).Eq(slotsBefore(t, slot).Add(g.N(t.genesisSlot)).Mod(g.Pow2(32)))), "slots before the next epoch, up to the genesis offset")
	return r
}

//gvc:contract target=(*TimeProvider).SlotsBeforeNextEpoch props=C02 nopanic
func c_SlotsBeforeNextEpoch_genesis(t *TimeProvider, slot SlotIndex) {
	g.Requires(tpValid(t) && t.genesisSlot != 0 && slot >= t.genesisSlot)
	r := t.SlotsBeforeNextEpoch(slot)
	g.Ensures(g.N(r).Eq(slotsBefore(t, slot)), "slots before the next epoch (genesis slot not 0)")
}

//gvc:contract target=(*TimeProvider).SlotsSinceEpochStart props=C02 modular pure nopanic
func c_SlotsSinceEpochStart(t *TimeProvider, slot SlotIndex) SlotIndex {
	g.Requires(tpValid(t))
	r := t.SlotsSinceEpochStart(slot)
	g.Ensures(g.Implies(slot < t.genesisSlot, r == 0), "0 for slots before genesis")
	g.Ensures(g.Implies(t.genesisSlot == 0, g.N(r).Eq(slotsSince(t, slot))), "slots since the start of the epoch (genesis slot 0)")
	g.Ensures(g.Implies(slot >= t.genesisSlot, g.N(r).Eq(slotsSince(t, slot)) || g.N(r).Eq(slotsSince(t, slot).Add(g.N(t.genesisSlot)).Mod(g.Pow2(32)))), "slots since the start of the epoch, up to the genesis offset")
	return r
}

//gvc:contract target=(*TimeProvider).SlotsSinceEpochStart props=C02 nopanic
func c_SlotsSinceEpochStart_genesis(t *TimeProvider, slot SlotIndex) {
	g.Requires(tpValid(t) && t.genesisSlot != 0 && slot >= t.genesisSlot)
	r := t.SlotsSinceEpochStart(slot)
	g.Ensures(g.N(r).Eq(slotsSince(t, slot)), "slots since the start of the epoch (genesis slot not 0)")
}

//gvc:gen
func gen_TimeProvider(r *g.Rand) *TimeProvider {
	gs := SlotIndex(r.Num())
	if r.Intn(2) == 0 {
		gs = 0
	}
	return NewTimeProvider(gs, int64(r.Num()>>24), int64(r.Intn(255)+1), uint8(r.Intn(32)))
}

//gvc:gen
func gen_time(r *g.Rand) time.Time {
	return time.Unix(int64(r.Num()>>(20+r.Intn(30))), int64(r.Intn(1000000000)))
}

//gvc:contract target=(*TimeProvider).EpochFromSlot props=C02 nopanic
func c_EpochFromSlot_monotone(t *TimeProvider, a SlotIndex, b SlotIndex) {
	g.Requires(tpValid(t) && a <= b)
	g.Ensures(t.EpochFromSlot(a) <= t.EpochFromSlot(b), "a later slot is not in an earlier epoch")
}
