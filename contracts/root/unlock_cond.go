package iotago

import (
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// The entry of a well-formed set, and its slot.
func hasTimelock(f UnlockConditionSet) bool { return f[UnlockConditionTimelock] != nil }

func timelockSlot(f UnlockConditionSet) SlotIndex {
	return f[UnlockConditionTimelock].(*TimelockUnlockCondition).Slot
}

func hasExpiration(f UnlockConditionSet) bool { return f[UnlockConditionExpiration] != nil }

func expirationOf(f UnlockConditionSet) *ExpirationUnlockCondition {
	return f[UnlockConditionExpiration].(*ExpirationUnlockCondition)
}

//gvc:contract target=UnlockConditionSet.Timelock props=C07 nopanic
func c_UCS_accessors(f UnlockConditionSet) {
	g.Requires(ucSetOK(f))
	g.Ensures((f.Timelock() != nil) == hasTimelock(f) && f.HasTimelockCondition() == hasTimelock(f), "the timelock condition is found iff the set has one")
	g.Ensures((f.Expiration() != nil) == hasExpiration(f) && f.HasExpirationCondition() == hasExpiration(f), "the expiration condition is found iff the set has one")
	g.Ensures(f.HasStorageDepositReturnCondition() == (f[UnlockConditionStorageDepositReturn] != nil) && (f.StorageDepositReturn() != nil) == (f[UnlockConditionStorageDepositReturn] != nil), "the storage deposit return condition is found iff the set has one")
	g.Ensures((f.Address() != nil) == (f[UnlockConditionAddress] != nil), "the address condition is found iff the set has one")
	g.Ensures((f.ImmutableAccount() != nil) == (f[UnlockConditionImmutableAccount] != nil), "the immutable account condition is found iff the set has one")
	g.Ensures((f.GovernorAddress() != nil) == (f[UnlockConditionGovernorAddress] != nil), "the governor condition is found iff the set has one")
	g.Ensures((f.StateControllerAddress() != nil) == (f[UnlockConditionStateControllerAddress] != nil), "the state controller condition is found iff the set has one")
}

//gvc:contract target=UnlockConditionSet.HasTimelockUntil props=C07 nopanic
func c_UCS_HasTimelockUntil(f UnlockConditionSet, slot SlotIndex) {
	g.Requires(ucSetOK(f))
	g.Ensures(f.HasTimelockUntil(slot) == (hasTimelock(f) && slot < timelockSlot(f)), "locked at a slot iff a timelock lies after the slot")
}

//gvc:contract target=UnlockConditionSet.TimelocksExpired props=C07 nopanic
func c_UCS_TimelocksExpired(f UnlockConditionSet, future SlotIndex) {
	g.Requires(ucSetOK(f))
	err := f.TimelocksExpired(future)
	g.Ensures((err != nil) == (hasTimelock(f) && timelockSlot(f) > future), "a timelock is expired iff its slot is not after the future bounded slot")
}

//gvc:contract target=UnlockConditionSet.OwnerAddressCanUnlock props=C07 nopanic
func c_UCS_OwnerAddressCanUnlock(f UnlockConditionSet, past SlotIndex) {
	g.Requires(ucSetOK(f))
	g.Ensures(f.OwnerAddressCanUnlock(past) == (!hasExpiration(f) || past < expirationOf(f).Slot), "the owner can unlock iff there is no expiration at or before the past bounded slot")
}

//gvc:contract target=UnlockConditionSet.ReturnAddressCanUnlock props=C07 nopanic
func c_UCS_ReturnAddressCanUnlock(f UnlockConditionSet, future SlotIndex) {
	g.Requires(ucSetOK(f))
	ok, addr := f.ReturnAddressCanUnlock(future)
	g.Ensures(ok == (hasExpiration(f) && future >= expirationOf(f).Slot), "the return address can unlock iff the future bounded slot has reached the expiration")
	if ok && hasExpiration(f) {
		g.Ensures(g.SameIface(addr, expirationOf(f).ReturnAddress), "the address of the expiration condition is returned")
	}
	g.Ensures(g.Implies(!ok, addr == nil), "no address is returned otherwise")
}

//gvc:contract target=UnlockConditionSet.CheckExpirationCondition props=C07 nopanic
func c_UCS_CheckExpirationCondition(f UnlockConditionSet, future SlotIndex, past SlotIndex) {
	g.Requires(ucSetOK(f))
	addr, err := f.CheckExpirationCondition(future, past)
	if !hasExpiration(f) {
		g.Ensures(addr == nil && err == nil, "without expiration the owner keeps control")
	} else if future >= expirationOf(f).Slot {
		g.Ensures(err == nil && g.SameIface(addr, expirationOf(f).ReturnAddress), "after expiration the return address is in control")
	} else if past < expirationOf(f).Slot {
		g.Ensures(addr == nil && err == nil, "before expiration the owner is in control")
	} else {
		g.Ensures(addr == nil && err != nil, "in between nobody can unlock")
	}
}

//gvc:contract target=UnlockConditionSet.CheckExpirationCondition props=C07
func c_UCS_exclusive(f UnlockConditionSet, commitment SlotIndex, minAge SlotIndex, maxAge SlotIndex) {
	g.Requires(ucSetOK(f) && minAge <= maxAge && g.N(commitment).Add(g.N(maxAge)).Lt(g.Pow2(32)))
	ret, _ := f.ReturnAddressCanUnlock(commitment + minAge)
	own := f.OwnerAddressCanUnlock(commitment + maxAge)
	g.Ensures(!(ret && own && hasExpiration(f)), "owner and return address are never in control at the same time")
}

//gvc:contract target=UnlockConditionSet.unlockableBy props=C07 nopanic
func c_UCS_unlockableBy(f UnlockConditionSet, addr Address, owner Address, past SlotIndex, future SlotIndex) {
	g.Requires(ucSetOK(f) && addrOK(addr) && addrOK(owner) && (!hasExpiration(f) || addrOK(expirationOf(f).ReturnAddress)))
	r := f.unlockableBy(addr, owner, past, future)
	if hasTimelock(f) && timelockSlot(f) > future {
		g.Ensures(!r, "a locked output is unlockable by nobody")
	} else if hasExpiration(f) && future >= expirationOf(f).Slot {
		g.Ensures(r == addr.Equal(expirationOf(f).ReturnAddress), "an expired output is unlockable by the return address")
	} else if hasExpiration(f) && past >= expirationOf(f).Slot {
		g.Ensures(!r, "in between nobody can unlock")
	} else {
		g.Ensures(r == addr.Equal(owner), "otherwise the owner can unlock")
	}
}

//gvc:contract target=UnlockConditionSet.HasManalockCondition props=C07,C09 nopanic
func c_UCS_HasManalockCondition(f UnlockConditionSet, id AccountID, slot SlotIndex) {
	g.Requires(ucSetOK(f))
	g.Requires(f.Address() == nil || addrOK(f.Address().Address))
	r := f.HasManalockCondition(id, slot)
	to := f.Address() != nil && f.Address().Address.Type() == AddressAccount && f.Address().Address.Equal(id.ToAddress())
	g.Ensures(r == (hasTimelock(f) && slot < timelockSlot(f) && to), "mana-locked iff locked and owned by the account")
}

//gvc:contract target=outputUnlockableBy props=C07
func c_outputUnlockableBy(o OwnerTransitionIndependentOutput, addr Address, past SlotIndex, future SlotIndex) {
	g.Requires(o != nil && addrOK(addr) && addrOK(o.Owner()))
	f := o.UnlockConditionSet()
	exp, lock := f.Expiration(), f.Timelock()
	g.Requires(exp == nil || addrOK(exp.ReturnAddress))
	r := o.UnlockableBy(addr, past, future)
	if lock != nil && lock.Slot > future {
		g.Ensures(!r, "a locked output is unlockable by nobody")
	} else if exp != nil && future >= exp.Slot {
		g.Ensures(r == addr.Equal(exp.ReturnAddress), "an expired output is unlockable by the return address")
	} else if exp != nil && past >= exp.Slot {
		g.Ensures(!r, "in between nobody can unlock")
	} else {
		g.Ensures(r == addr.Equal(o.Owner()), "otherwise the owner can unlock")
	}
}
