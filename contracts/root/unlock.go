package iotago

import (
	"crypto/ed25519"

	hiveEd25519 "github.com/iotaledger/hive.go/crypto/ed25519"

	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// signedBy: the signature is a valid signature of the message under the public key whose hash is the address.
func signedBy(addr DirectUnlockableAddress, msg []byte, sig Signature) bool {
	s, is := sig.(*Ed25519Signature)
	if !is || !hiveEd25519.Verify(s.PublicKey[:], msg, s.Signature[:]) {
		return false
	}
	return ownedBy(addr, s)
}

// ownedBy: the address belongs to the public key of the signature.
func ownedBy(addr Address, s *Ed25519Signature) bool {
	switch a := addr.(type) {
	case *Ed25519Address:
		return *a == *Ed25519AddressFromPubKey(ed25519.PublicKey(s.PublicKey[:]))
	case *ImplicitAccountCreationAddress:
		return *a == *ImplicitAccountCreationAddressFromPubKey(ed25519.PublicKey(s.PublicKey[:]))
	}
	return false
}

//gvc:contract target=(*Ed25519Address).Unlock props=C06
func c_Ed25519Address_Unlock(a *Ed25519Address, msg []byte, sig Signature) {
	g.Requires(a != nil && sig != nil)
	g.Ensures((a.Unlock(msg, sig) == nil) == signedBy(a, msg, sig), "an address is unlocked iff the message is signed with the key whose hash it is")
}

//gvc:contract target=(*ImplicitAccountCreationAddress).Unlock props=C06
func c_ImplicitAccountCreationAddress_Unlock(a *ImplicitAccountCreationAddress, msg []byte, sig Signature) {
	g.Requires(a != nil && sig != nil)
	g.Ensures((a.Unlock(msg, sig) == nil) == signedBy(a, msg, sig), "an address is unlocked iff the message is signed with the key whose hash it is")
}

//gvc:contract target=(*Ed25519Signature).MatchesAddress props=C06
func c_Ed25519Signature_MatchesAddress(s *Ed25519Signature, a Address) {
	g.Requires(s != nil && a != nil)
	g.Ensures(s.MatchesAddress(a) == ownedBy(a, s), "a signature fits an address iff the address is the hash of its public key")
}

//gvc:contract target=(*Ed25519Signature).SignerUID props=C06
func c_Ed25519Signature_SignerUID(s *Ed25519Signature, t *Ed25519Signature) {
	g.Requires(s != nil && t != nil)
	g.Ensures(g.Implies(s.PublicKey == t.PublicKey, s.SignerUID() == t.SignerUID()), "signatures with the same key have the same signer")
	g.Ensures(s.SignerUID() == IdentifierFromData(s.PublicKey[:]), "the signer is the hash of the public key")
}

func isDirect(a Address) bool {
	switch a.(type) {
	case *Ed25519Address, *ImplicitAccountCreationAddress:
		return true
	}
	return false
}

func isChainAddr(a Address) bool {
	switch a.(type) {
	case *AccountAddress, *AnchorAddress, *NFTAddress:
		return true
	}
	return false
}

//gvc:contract target=(*AccountUnlock).SourceAllowed props=C06
func c_ReferentialUnlock(u ReferentialUnlock, a Address) {
	g.Requires(u != nil && a != nil)
	switch x := u.(type) {
	case *AccountUnlock:
		_, is := a.(*AccountAddress)
		g.Ensures(u.SourceAllowed(a) == is && u.Chainable() && u.ReferencedInputIndex() == x.Reference, "an account unlock is for account addresses")
	case *AnchorUnlock:
		_, is := a.(*AnchorAddress)
		g.Ensures(u.SourceAllowed(a) == is && u.Chainable() && u.ReferencedInputIndex() == x.Reference, "an anchor unlock is for anchor addresses")
	case *NFTUnlock:
		_, is := a.(*NFTAddress)
		g.Ensures(u.SourceAllowed(a) == is && u.Chainable() && u.ReferencedInputIndex() == x.Reference, "an NFT unlock is for NFT addresses")
	case *ReferenceUnlock:
		g.Ensures(u.SourceAllowed(a) == !isChainAddr(a) && !u.Chainable() && u.ReferencedInputIndex() == x.Reference, "a reference unlock is not for the addresses of chains")
	}
}

//gvc:contract target=(*AccountUnlock).SourceAllowed props=C06
func c_AddressKinds(a Address) {
	g.Requires(a != nil)
	_, direct := a.(DirectUnlockableAddress)
	_, chain := a.(ChainAddress)
	g.Ensures(direct == isDirect(a), "signatures unlock Ed25519 and implicit account creation addresses")
	g.Ensures(chain == isChainAddr(a), "account, anchor and NFT addresses are those of chains")
}

//gvc:contract target=(*AnchorOutput).Owner props=C06,C09 opaque=(*AnchorOutput).StateController,(*AnchorOutput).GovernorAddress
func c_AnchorOutput_Owner(a *AnchorOutput, next OwnerTransitionDependentOutput) {
	g.Requires(a != nil)
	n, is := next.(*AnchorOutput)
	g.Requires(!is || n != nil)
	o, err := a.Owner(next)
	if next == nil {
		g.Ensures(err == nil && g.SameIface(o, a.GovernorAddress()), "an anchor without a successor belongs to its governor")
	} else if !is {
		g.Ensures(err != nil, "an anchor is followed by an anchor")
	} else if a.StateIndex == n.StateIndex {
		g.Ensures(err == nil && g.SameIface(o, a.GovernorAddress()), "an anchor whose state stays belongs to its governor")
	} else if g.N(n.StateIndex).Eq(g.N(a.StateIndex).Add(g.K(1))) {
		g.Ensures(err == nil && g.SameIface(o, a.StateController()), "an anchor whose state changes belongs to its state controller")
	} else {
		g.Ensures(g.Implies(a.StateIndex != 4294967295, err != nil), "the state of an anchor changes in single steps")
	}
}

func sigOf(u Unlock) *SignatureUnlock {
	s, _ := u.(*SignatureUnlock)
	return s
}

func multiOf(u Unlock) *MultiUnlock {
	m, _ := u.(*MultiUnlock)
	return m
}

// refTarget: the position an unlock refers to, whether it refers to one at all, and whether it may refer to one which refers itself.
func refTarget(u Unlock) (int, bool, bool) {
	switch x := u.(type) {
	case *ReferenceUnlock:
		return int(x.Reference), true, false
	case *AccountUnlock:
		return int(x.Reference), true, true
	case *AnchorUnlock:
		return int(x.Reference), true, true
	case *NFTUnlock:
		return int(x.Reference), true, true
	}
	return 0, false, false
}

func isRef(u Unlock) bool {
	_, is, _ := refTarget(u)
	return is
}

// refOK: an unlock which refers to another one refers to a signature, to a set of unlocks (unless it is part of such a set itself),
// or, if it unlocks by a chain, to another reference, at one of the first n positions.
func refOK(us Unlocks, u Unlock, n int, part bool) bool {
	t, is, chain := refTarget(u)
	return !is || t < n && (sigOf(us[t]) != nil || !part && multiOf(us[t]) != nil || chain && isRef(us[t]))
}

// partRefsOK: the part of an unlock (if it is there) is no set of unlocks and its reference is suitable.
func partRefsOK(us Unlocks, i int, sub int) bool {
	m := multiOf(us[i])
	return m == nil || sub >= len(m.Unlocks) || multiOf(m.Unlocks[sub]) == nil && refOK(us, m.Unlocks[sub], i, true)
}

func unlocksNonNil(us Unlocks) bool {
	return g.Forall(0, len(us), func(i int) bool {
		return us[i] != nil && (multiOf(us[i]) == nil || g.Forall(0, len(multiOf(us[i]).Unlocks), func(j int) bool { return multiOf(us[i]).Unlocks[j] != nil }))
	})
}

//gvc:contract target=SignaturesUniqueAndReferenceUnlocksValidator props=C06 stable opaque=iface:(Signature).SignerUID,iface:(API).Encode
func c_UnlockReferences(api API, us Unlocks, at int, sub int) {
	g.Requires(api != nil && unlocksNonNil(us) && len(us) <= 65535 && at >= 0 && at < len(us) && sub >= 0)
	err := ValidateUnlocks(us, SignaturesUniqueAndReferenceUnlocksValidator(api))
	_, empty := us[at].(*EmptyUnlock)
	g.Ensures(err != nil || partRefsOK(us, at, sub), "parts of multi unlocks refer only to suitable unlocks at earlier positions")
	g.Ensures(err != nil || refOK(us, us[at], at, false), "unlocks refer only to suitable unlocks at earlier positions")
	g.Ensures(err != nil || !empty, "empty unlocks are only parts of multi unlocks")
}

//gvc:invariant for=c_UnlockReferences,c_SignedTransaction_syntacticallyValidate
func inv_UnlockReferences1(unlocks Unlocks, at int, sub int, i int) bool {
	return at >= i || partRefsOK(unlocks, at, sub)
}

//gvc:invariant for=c_UnlockReferences,c_SignedTransaction_syntacticallyValidate
func inv_UnlockReferences9(unlocks Unlocks, at int, i int) bool {
	return at >= i || refOK(unlocks, unlocks[at], at, false)
}

//gvc:invariant for=c_UnlockReferences,c_SignedTransaction_syntacticallyValidate
func inv_UnlockReferences2(unlocks Unlocks, at int, i int) bool {
	_, empty := unlocks[at].(*EmptyUnlock)
	return at >= i || !empty
}

//gvc:invariant for=c_UnlockReferences,c_UnlockSigners,c_SignedTransaction_syntacticallyValidate
func inv_UnlockReferences3(unlocks Unlocks, seenSignatureUnlocks map[uint16]struct{}, i int) bool {
	return g.ForallMap(seenSignatureUnlocks, func(k uint16, v struct{}) bool { return int(k) < i && sigOf(unlocks[k]) != nil })
}

//gvc:invariant for=c_UnlockReferences,c_SignedTransaction_syntacticallyValidate
func inv_UnlockReferences4(unlocks Unlocks, seenMultiUnlocks map[uint16]struct{}, i int) bool {
	return g.ForallMap(seenMultiUnlocks, func(k uint16, v struct{}) bool { return int(k) < i && multiOf(unlocks[k]) != nil })
}

//gvc:invariant for=c_UnlockReferences,c_SignedTransaction_syntacticallyValidate
func inv_UnlockReferences5(unlocks Unlocks, seenReferentialUnlocks map[uint16]ReferentialUnlock, i int) bool {
	return g.ForallMap(seenReferentialUnlocks, func(k uint16, v ReferentialUnlock) bool { return int(k) < i && isRef(unlocks[k]) })
}

//gvc:invariant for=c_UnlockReferences,c_SignedTransaction_syntacticallyValidate
func inv_UnlockReferences6(unlocks Unlocks, at int, sub int, index int, subIndex int) bool {
	return at != index || sub >= subIndex || partRefsOK(unlocks, at, sub)
}

// partSig: the signature which is a part of an unlock.
func partSig(u Unlock, sub int) *SignatureUnlock {
	if m := multiOf(u); m != nil && sub < len(m.Unlocks) {
		return sigOf(m.Unlocks[sub])
	}
	return nil
}

func signaturesNonNil(us Unlocks, a int, b int, sub int) bool {
	return (sigOf(us[a]) == nil || sigOf(us[a]).Signature != nil) && (sigOf(us[b]) == nil || sigOf(us[b]).Signature != nil) && (partSig(us[b], sub) == nil || partSig(us[b], sub).Signature != nil)
}

func signersDiffer(us Unlocks, a int, b int) bool {
	return sigOf(us[a]) == nil || sigOf(us[b]) == nil || sigOf(us[a]).Signature.SignerUID() != sigOf(us[b]).Signature.SignerUID()
}

func partSignerDiffers(us Unlocks, a int, b int, sub int) bool {
	return sigOf(us[a]) == nil || partSig(us[b], sub) == nil || sigOf(us[a]).Signature.SignerUID() != partSig(us[b], sub).Signature.SignerUID()
}

//gvc:contract target=SignaturesUniqueAndReferenceUnlocksValidator props=C06 stable opaque=iface:(Signature).SignerUID,iface:(API).Encode
func c_UnlockSigners(api API, us Unlocks, a int, b int, sub int) {
	g.Requires(api != nil && unlocksNonNil(us) && len(us) <= 65535 && a >= 0 && a < len(us) && b >= 0 && b < len(us) && a != b && sub >= 0)
	g.Requires(signaturesNonNil(us, a, b, sub))
	err := ValidateUnlocks(us, SignaturesUniqueAndReferenceUnlocksValidator(api))
	g.Ensures(err != nil || signersDiffer(us, a, b), "nobody signs twice")
	g.Ensures(err != nil || partSignerDiffers(us, a, b, sub), "nobody signs both on their own and as part of a multi unlock")
}

//gvc:invariant for=c_UnlockSigners
func inv_UnlockSigners1(unlocks Unlocks, a int, seenSignerUIDs map[Identifier]int, i int) bool {
	if a >= i || sigOf(unlocks[a]) == nil {
		return true
	}
	_, has := seenSignerUIDs[sigOf(unlocks[a]).Signature.SignerUID()]
	return has
}

//gvc:invariant for=c_UnlockSigners
func inv_UnlockSigners2(unlocks Unlocks, b int, seenSignerUIDs map[Identifier]int, i int) bool {
	if b >= i || sigOf(unlocks[b]) == nil {
		return true
	}
	_, has := seenSignerUIDs[sigOf(unlocks[b]).Signature.SignerUID()]
	return has
}

//gvc:invariant for=c_UnlockSigners
func inv_UnlockSigners3(unlocks Unlocks, b int, sub int, seenSignerUIDsInMultiUnlocks map[Identifier]int, i int) bool {
	if b >= i || partSig(unlocks[b], sub) == nil {
		return true
	}
	_, has := seenSignerUIDsInMultiUnlocks[partSig(unlocks[b], sub).Signature.SignerUID()]
	return has
}

//gvc:invariant for=c_UnlockSigners
func inv_UnlockSigners4(unlocks Unlocks, a int, b int, i int) bool {
	return a >= i || b >= i || signersDiffer(unlocks, a, b)
}

//gvc:invariant for=c_UnlockSigners
func inv_UnlockSigners5(unlocks Unlocks, a int, b int, sub int, i int) bool {
	return a >= i || b >= i || partSignerDiffers(unlocks, a, b, sub)
}

//gvc:invariant for=c_UnlockSigners
func inv_UnlockSigners6(unlocks Unlocks, a int, b int, sub int, index int, subIndex int) bool {
	return b != index || sub >= subIndex || a >= index || partSignerDiffers(unlocks, a, b, sub)
}

//gvc:invariant for=c_UnlockSigners
func inv_UnlockSigners7(unlocks Unlocks, b int, sub int, index int, seenSignerUIDsInMultiUnlocks map[Identifier]int, subIndex int) bool {
	if b != index || sub >= subIndex || partSig(unlocks[b], sub) == nil {
		return true
	}
	_, has := seenSignerUIDsInMultiUnlocks[partSig(unlocks[b], sub).Signature.SignerUID()]
	return has
}

//gvc:contract target=(*SignedTransaction).syntacticallyValidate props=C06 stable opaque=iface:(Signature).SignerUID,iface:(API).Encode,(*Transaction).Inputs,(*Transaction).SyntacticallyValidate
func c_SignedTransaction_syntacticallyValidate(t *SignedTransaction, at int) {
	g.Requires(t != nil && t.Transaction != nil && t.Transaction.TransactionEssence != nil && t.API != nil)
	us := t.Unlocks
	g.Requires(unlocksNonNil(us) && len(us) <= 65535 && at >= 0 && at < len(us))
	err := t.syntacticallyValidate()
	g.Ensures(err != nil || len(us) == len(t.Transaction.Inputs()), "there is one unlock for every input")
	g.Ensures(err != nil || t.Transaction.SyntacticallyValidate(t.API) == nil, "the transaction itself is valid")
	g.Ensures(err != nil || refOK(us, us[at], at, false), "unlocks refer only to suitable unlocks at earlier positions")
}
