// Code generated by tools/genids.py.

package iotago

import (
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// le32 is the little endian value of four bytes.
func le32(a, b, c, d byte) g.Int {
	return g.N(a).Add(g.N(b).Mul(g.K(256))).Add(g.N(c).Mul(g.K(65536))).Add(g.N(d).Mul(g.K(16777216)))
}

//gvc:contract target=NewBlockID props=C16 nopanic
func c_NewBlockID(slot SlotIndex, h Identifier) {
	id := NewBlockID(slot, h)
	g.Ensures(id.Slot() == slot, "the identifier carries the slot")
	g.Ensures(id.Identifier() == h, "the identifier carries the hash")
	g.Ensures(g.Forall(0, 32, func(i int) bool { return id[i] == h[i] }), "the first 32 bytes are the hash")
	g.Ensures(le32(id[32], id[33], id[34], id[35]).Eq(g.N(slot)), "the last four bytes are the slot in little endian")
	g.Ensures(id == NewBlockID(id.Slot(), id.Identifier()), "the identifier is determined by slot and hash")
}

//gvc:contract target=(BlockID).Identifier props=C16 nopanic
func c_BlockID_parts(id BlockID) {
	h := id.Identifier()
	g.Ensures(NewBlockID(id.Slot(), h) == id, "every identifier is made of its hash and slot")
}

//gvc:contract target=BlockIDRepresentingData props=C16 nopanic
func c_BlockIDRepresentingData(slot SlotIndex, data []byte) {
	id := BlockIDRepresentingData(slot, data)
	g.Ensures(id.Slot() == slot, "the identifier carries the slot")
	g.Ensures(id.Identifier() == IdentifierFromData(data), "the identifier carries the hash of the data")
}

//gvc:contract target=NewCommitmentID props=C16 nopanic
func c_NewCommitmentID(slot SlotIndex, h Identifier) {
	id := NewCommitmentID(slot, h)
	g.Ensures(id.Slot() == slot, "the identifier carries the slot")
	g.Ensures(id.Identifier() == h, "the identifier carries the hash")
	g.Ensures(g.Forall(0, 32, func(i int) bool { return id[i] == h[i] }), "the first 32 bytes are the hash")
	g.Ensures(le32(id[32], id[33], id[34], id[35]).Eq(g.N(slot)), "the last four bytes are the slot in little endian")
	g.Ensures(id == NewCommitmentID(id.Slot(), id.Identifier()), "the identifier is determined by slot and hash")
}

//gvc:contract target=(CommitmentID).Identifier props=C16 nopanic
func c_CommitmentID_parts(id CommitmentID) {
	h := id.Identifier()
	g.Ensures(NewCommitmentID(id.Slot(), h) == id, "every identifier is made of its hash and slot")
}

//gvc:contract target=CommitmentIDRepresentingData props=C16 nopanic
func c_CommitmentIDRepresentingData(slot SlotIndex, data []byte) {
	id := CommitmentIDRepresentingData(slot, data)
	g.Ensures(id.Slot() == slot, "the identifier carries the slot")
	g.Ensures(id.Identifier() == IdentifierFromData(data), "the identifier carries the hash of the data")
}

//gvc:contract target=NewTransactionID props=C16 nopanic
func c_NewTransactionID(slot SlotIndex, h Identifier) {
	id := NewTransactionID(slot, h)
	g.Ensures(id.Slot() == slot, "the identifier carries the slot")
	g.Ensures(id.Identifier() == h, "the identifier carries the hash")
	g.Ensures(g.Forall(0, 32, func(i int) bool { return id[i] == h[i] }), "the first 32 bytes are the hash")
	g.Ensures(le32(id[32], id[33], id[34], id[35]).Eq(g.N(slot)), "the last four bytes are the slot in little endian")
	g.Ensures(id == NewTransactionID(id.Slot(), id.Identifier()), "the identifier is determined by slot and hash")
}

//gvc:contract target=(TransactionID).Identifier props=C16 nopanic
func c_TransactionID_parts(id TransactionID) {
	h := id.Identifier()
	g.Ensures(NewTransactionID(id.Slot(), h) == id, "every identifier is made of its hash and slot")
}

//gvc:contract target=TransactionIDRepresentingData props=C16 nopanic
func c_TransactionIDRepresentingData(slot SlotIndex, data []byte) {
	id := TransactionIDRepresentingData(slot, data)
	g.Ensures(id.Slot() == slot, "the identifier carries the slot")
	g.Ensures(id.Identifier() == IdentifierFromData(data), "the identifier carries the hash of the data")
}

//gvc:contract target=NewSignedTransactionID props=C16 nopanic
func c_NewSignedTransactionID(slot SlotIndex, h Identifier) {
	id := NewSignedTransactionID(slot, h)
	g.Ensures(id.Slot() == slot, "the identifier carries the slot")
	g.Ensures(id.Identifier() == h, "the identifier carries the hash")
	g.Ensures(g.Forall(0, 32, func(i int) bool { return id[i] == h[i] }), "the first 32 bytes are the hash")
	g.Ensures(le32(id[32], id[33], id[34], id[35]).Eq(g.N(slot)), "the last four bytes are the slot in little endian")
	g.Ensures(id == NewSignedTransactionID(id.Slot(), id.Identifier()), "the identifier is determined by slot and hash")
}

//gvc:contract target=(SignedTransactionID).Identifier props=C16 nopanic
func c_SignedTransactionID_parts(id SignedTransactionID) {
	h := id.Identifier()
	g.Ensures(NewSignedTransactionID(id.Slot(), h) == id, "every identifier is made of its hash and slot")
}

//gvc:contract target=SignedTransactionIDRepresentingData props=C16 nopanic
func c_SignedTransactionIDRepresentingData(slot SlotIndex, data []byte) {
	id := SignedTransactionIDRepresentingData(slot, data)
	g.Ensures(id.Slot() == slot, "the identifier carries the slot")
	g.Ensures(id.Identifier() == IdentifierFromData(data), "the identifier carries the hash of the data")
}

//gvc:contract target=BlockIDFromBytes props=C16 nopanic
func c_BlockIDFromBytes(b []byte) {
	id, n, err := BlockIDFromBytes(b)
	g.Ensures((err == nil) == (len(b) >= 36), "exactly the inputs that are too short are errors")
	g.Ensures(g.Implies(err == nil, n == 36), "the number of bytes consumed")
	g.Ensures(g.Implies(err != nil, n == 0 && id.Empty()), "nothing is returned with an error")
	if err == nil {
		g.Ensures(g.Forall(0, 36, func(i int) bool { return id[i] == b[i] }), "the identifier holds the bytes")
	}
}

//gvc:contract target=(BlockID).Bytes props=C16 nopanic
func c_BlockID_Bytes(id BlockID) {
	b, err := id.Bytes()
	g.Ensures(err == nil && len(b) == 36, "the bytes of an identifier")
	g.Ensures(g.Forall(0, 36, func(i int) bool { return id[i] == b[i] }), "the bytes are those of the identifier")
	id2, _, err2 := BlockIDFromBytes(b)
	g.Ensures(err2 == nil && id2 == id, "parsing the bytes gives the identifier back")
}

//gvc:contract target=IsValidBlockID props=C16 nopanic
func c_IsValidBlockID(b []byte) {
	g.Ensures((IsValidBlockID(b) == nil) == (len(b) == 36), "exactly the right length is valid")
}

//gvc:contract target=(BlockID).Empty props=C16 nopanic
func c_BlockID_Empty(id BlockID) {
	g.Ensures(id.Empty() == g.Forall(0, 36, func(i int) bool { return id[i] == 0 }), "an identifier is empty iff all bytes are zero")
}

//gvc:contract target=CommitmentIDFromBytes props=C16 nopanic
func c_CommitmentIDFromBytes(b []byte) {
	id, n, err := CommitmentIDFromBytes(b)
	g.Ensures((err == nil) == (len(b) >= 36), "exactly the inputs that are too short are errors")
	g.Ensures(g.Implies(err == nil, n == 36), "the number of bytes consumed")
	g.Ensures(g.Implies(err != nil, n == 0 && id.Empty()), "nothing is returned with an error")
	if err == nil {
		g.Ensures(g.Forall(0, 36, func(i int) bool { return id[i] == b[i] }), "the identifier holds the bytes")
	}
}

//gvc:contract target=(CommitmentID).Bytes props=C16 nopanic
func c_CommitmentID_Bytes(id CommitmentID) {
	b, err := id.Bytes()
	g.Ensures(err == nil && len(b) == 36, "the bytes of an identifier")
	g.Ensures(g.Forall(0, 36, func(i int) bool { return id[i] == b[i] }), "the bytes are those of the identifier")
	id2, _, err2 := CommitmentIDFromBytes(b)
	g.Ensures(err2 == nil && id2 == id, "parsing the bytes gives the identifier back")
}

//gvc:contract target=IsValidCommitmentID props=C16 nopanic
func c_IsValidCommitmentID(b []byte) {
	g.Ensures((IsValidCommitmentID(b) == nil) == (len(b) == 36), "exactly the right length is valid")
}

//gvc:contract target=(CommitmentID).Empty props=C16 nopanic
func c_CommitmentID_Empty(id CommitmentID) {
	g.Ensures(id.Empty() == g.Forall(0, 36, func(i int) bool { return id[i] == 0 }), "an identifier is empty iff all bytes are zero")
}

//gvc:contract target=TransactionIDFromBytes props=C16 nopanic
func c_TransactionIDFromBytes(b []byte) {
	id, n, err := TransactionIDFromBytes(b)
	g.Ensures((err == nil) == (len(b) >= 36), "exactly the inputs that are too short are errors")
	g.Ensures(g.Implies(err == nil, n == 36), "the number of bytes consumed")
	g.Ensures(g.Implies(err != nil, n == 0 && id.Empty()), "nothing is returned with an error")
	if err == nil {
		g.Ensures(g.Forall(0, 36, func(i int) bool { return id[i] == b[i] }), "the identifier holds the bytes")
	}
}

//gvc:contract target=(TransactionID).Bytes props=C16 nopanic
func c_TransactionID_Bytes(id TransactionID) {
	b, err := id.Bytes()
	g.Ensures(err == nil && len(b) == 36, "the bytes of an identifier")
	g.Ensures(g.Forall(0, 36, func(i int) bool { return id[i] == b[i] }), "the bytes are those of the identifier")
	id2, _, err2 := TransactionIDFromBytes(b)
	g.Ensures(err2 == nil && id2 == id, "parsing the bytes gives the identifier back")
}

//gvc:contract target=IsValidTransactionID props=C16 nopanic
func c_IsValidTransactionID(b []byte) {
	g.Ensures((IsValidTransactionID(b) == nil) == (len(b) == 36), "exactly the right length is valid")
}

//gvc:contract target=(TransactionID).Empty props=C16 nopanic
func c_TransactionID_Empty(id TransactionID) {
	g.Ensures(id.Empty() == g.Forall(0, 36, func(i int) bool { return id[i] == 0 }), "an identifier is empty iff all bytes are zero")
}

//gvc:contract target=SignedTransactionIDFromBytes props=C16 nopanic
func c_SignedTransactionIDFromBytes(b []byte) {
	id, n, err := SignedTransactionIDFromBytes(b)
	g.Ensures((err == nil) == (len(b) >= 36), "exactly the inputs that are too short are errors")
	g.Ensures(g.Implies(err == nil, n == 36), "the number of bytes consumed")
	g.Ensures(g.Implies(err != nil, n == 0 && id.Empty()), "nothing is returned with an error")
	if err == nil {
		g.Ensures(g.Forall(0, 36, func(i int) bool { return id[i] == b[i] }), "the identifier holds the bytes")
	}
}

//gvc:contract target=(SignedTransactionID).Bytes props=C16 nopanic
func c_SignedTransactionID_Bytes(id SignedTransactionID) {
	b, err := id.Bytes()
	g.Ensures(err == nil && len(b) == 36, "the bytes of an identifier")
	g.Ensures(g.Forall(0, 36, func(i int) bool { return id[i] == b[i] }), "the bytes are those of the identifier")
	id2, _, err2 := SignedTransactionIDFromBytes(b)
	g.Ensures(err2 == nil && id2 == id, "parsing the bytes gives the identifier back")
}

//gvc:contract target=IsValidSignedTransactionID props=C16 nopanic
func c_IsValidSignedTransactionID(b []byte) {
	g.Ensures((IsValidSignedTransactionID(b) == nil) == (len(b) == 36), "exactly the right length is valid")
}

//gvc:contract target=(SignedTransactionID).Empty props=C16 nopanic
func c_SignedTransactionID_Empty(id SignedTransactionID) {
	g.Ensures(id.Empty() == g.Forall(0, 36, func(i int) bool { return id[i] == 0 }), "an identifier is empty iff all bytes are zero")
}

//gvc:contract target=OutputIDFromBytes props=C16 nopanic
func c_OutputIDFromBytes(b []byte) {
	id, n, err := OutputIDFromBytes(b)
	g.Ensures((err == nil) == (len(b) >= 38), "exactly the inputs that are too short are errors")
	g.Ensures(g.Implies(err == nil, n == 38), "the number of bytes consumed")
	g.Ensures(g.Implies(err != nil, n == 0 && id.Empty()), "nothing is returned with an error")
	if err == nil {
		g.Ensures(g.Forall(0, 38, func(i int) bool { return id[i] == b[i] }), "the identifier holds the bytes")
	}
}

//gvc:contract target=(OutputID).Bytes props=C16 nopanic
func c_OutputID_Bytes(id OutputID) {
	b, err := id.Bytes()
	g.Ensures(err == nil && len(b) == 38, "the bytes of an identifier")
	g.Ensures(g.Forall(0, 38, func(i int) bool { return id[i] == b[i] }), "the bytes are those of the identifier")
	id2, _, err2 := OutputIDFromBytes(b)
	g.Ensures(err2 == nil && id2 == id, "parsing the bytes gives the identifier back")
}

//gvc:contract target=IsValidOutputID props=C16 nopanic
func c_IsValidOutputID(b []byte) {
	g.Ensures((IsValidOutputID(b) == nil) == (len(b) == 38), "exactly the right length is valid")
}

//gvc:contract target=(OutputID).Empty props=C16 nopanic
func c_OutputID_Empty(id OutputID) {
	g.Ensures(id.Empty() == g.Forall(0, 38, func(i int) bool { return id[i] == 0 }), "an identifier is empty iff all bytes are zero")
}

//gvc:contract target=IdentifierFromBytes props=C16 nopanic
func c_IdentifierFromBytes(b []byte) {
	id, n, err := IdentifierFromBytes(b)
	g.Ensures((err == nil) == (len(b) >= 32), "exactly the inputs that are too short are errors")
	g.Ensures(g.Implies(err == nil, n == 32), "the number of bytes consumed")
	g.Ensures(g.Implies(err != nil, n == 0 && id.Empty()), "nothing is returned with an error")
	if err == nil {
		g.Ensures(g.Forall(0, 32, func(i int) bool { return id[i] == b[i] }), "the identifier holds the bytes")
	}
}

//gvc:contract target=(Identifier).Bytes props=C16 nopanic
func c_Identifier_Bytes(id Identifier) {
	b, err := id.Bytes()
	g.Ensures(err == nil && len(b) == 32, "the bytes of an identifier")
	g.Ensures(g.Forall(0, 32, func(i int) bool { return id[i] == b[i] }), "the bytes are those of the identifier")
	id2, _, err2 := IdentifierFromBytes(b)
	g.Ensures(err2 == nil && id2 == id, "parsing the bytes gives the identifier back")
}

//gvc:contract target=IsValidIdentifier props=C16 nopanic
func c_IsValidIdentifier(b []byte) {
	g.Ensures((IsValidIdentifier(b) == nil) == (len(b) == 32), "exactly the right length is valid")
}

//gvc:contract target=(Identifier).Empty props=C16 nopanic
func c_Identifier_Empty(id Identifier) {
	g.Ensures(id.Empty() == g.Forall(0, 32, func(i int) bool { return id[i] == 0 }), "an identifier is empty iff all bytes are zero")
}

//gvc:contract target=AccountIDFromBytes props=C16 nopanic
func c_AccountIDFromBytes(b []byte) {
	id, n, err := AccountIDFromBytes(b)
	g.Ensures((err == nil) == (len(b) >= 32), "exactly the inputs that are too short are errors")
	g.Ensures(g.Implies(err == nil, n == 32), "the number of bytes consumed")
	g.Ensures(g.Implies(err != nil, n == 0 && id.Empty()), "nothing is returned with an error")
	if err == nil {
		g.Ensures(g.Forall(0, 32, func(i int) bool { return id[i] == b[i] }), "the identifier holds the bytes")
	}
}

//gvc:contract target=(AccountID).Bytes props=C16 nopanic
func c_AccountID_Bytes(id AccountID) {
	b, err := id.Bytes()
	g.Ensures(err == nil && len(b) == 32, "the bytes of an identifier")
	g.Ensures(g.Forall(0, 32, func(i int) bool { return id[i] == b[i] }), "the bytes are those of the identifier")
	id2, _, err2 := AccountIDFromBytes(b)
	g.Ensures(err2 == nil && id2 == id, "parsing the bytes gives the identifier back")
}

//gvc:contract target=IsValidAccountID props=C16 nopanic
func c_IsValidAccountID(b []byte) {
	g.Ensures((IsValidAccountID(b) == nil) == (len(b) == 32), "exactly the right length is valid")
}

//gvc:contract target=(AccountID).Empty props=C16 nopanic
func c_AccountID_Empty(id AccountID) {
	g.Ensures(id.Empty() == g.Forall(0, 32, func(i int) bool { return id[i] == 0 }), "an identifier is empty iff all bytes are zero")
}

//gvc:contract target=AnchorIDFromBytes props=C16 nopanic
func c_AnchorIDFromBytes(b []byte) {
	id, n, err := AnchorIDFromBytes(b)
	g.Ensures((err == nil) == (len(b) >= 32), "exactly the inputs that are too short are errors")
	g.Ensures(g.Implies(err == nil, n == 32), "the number of bytes consumed")
	g.Ensures(g.Implies(err != nil, n == 0 && id.Empty()), "nothing is returned with an error")
	if err == nil {
		g.Ensures(g.Forall(0, 32, func(i int) bool { return id[i] == b[i] }), "the identifier holds the bytes")
	}
}

//gvc:contract target=(AnchorID).Bytes props=C16 nopanic
func c_AnchorID_Bytes(id AnchorID) {
	b, err := id.Bytes()
	g.Ensures(err == nil && len(b) == 32, "the bytes of an identifier")
	g.Ensures(g.Forall(0, 32, func(i int) bool { return id[i] == b[i] }), "the bytes are those of the identifier")
	id2, _, err2 := AnchorIDFromBytes(b)
	g.Ensures(err2 == nil && id2 == id, "parsing the bytes gives the identifier back")
}

//gvc:contract target=IsValidAnchorID props=C16 nopanic
func c_IsValidAnchorID(b []byte) {
	g.Ensures((IsValidAnchorID(b) == nil) == (len(b) == 32), "exactly the right length is valid")
}

//gvc:contract target=(AnchorID).Empty props=C16 nopanic
func c_AnchorID_Empty(id AnchorID) {
	g.Ensures(id.Empty() == g.Forall(0, 32, func(i int) bool { return id[i] == 0 }), "an identifier is empty iff all bytes are zero")
}

//gvc:contract target=SlotIndexFromBytes props=C16 nopanic
func c_SlotIndexFromBytes(b []byte) {
	s, n, err := SlotIndexFromBytes(b)
	g.Ensures((err == nil) == (len(b) >= 4), "exactly the inputs that are too short are errors")
	if err == nil {
		g.Ensures(n == 4 && le32(b[0], b[1], b[2], b[3]).Eq(g.N(s)), "the index is stored in little endian")
	}
}

//gvc:contract target=(SlotIndex).Bytes props=C16 nopanic
func c_SlotIndex_Bytes(s SlotIndex) {
	b, err := s.Bytes()
	g.Ensures(err == nil && len(b) == 4, "four bytes")
	s2, _, err2 := SlotIndexFromBytes(b)
	g.Ensures(err2 == nil && s2 == s, "parsing the bytes gives the index back")
}

//gvc:contract target=EpochIndexFromBytes props=C16 nopanic
func c_EpochIndexFromBytes(b []byte) {
	s, n, err := EpochIndexFromBytes(b)
	g.Ensures((err == nil) == (len(b) >= 4), "exactly the inputs that are too short are errors")
	if err == nil {
		g.Ensures(n == 4 && le32(b[0], b[1], b[2], b[3]).Eq(g.N(s)), "the index is stored in little endian")
	}
}

//gvc:contract target=(EpochIndex).Bytes props=C16 nopanic
func c_EpochIndex_Bytes(s EpochIndex) {
	b, err := s.Bytes()
	g.Ensures(err == nil && len(b) == 4, "four bytes")
	s2, _, err2 := EpochIndexFromBytes(b)
	g.Ensures(err2 == nil && s2 == s, "parsing the bytes gives the index back")
}

//gvc:contract target=(*UTXOInput).OutputID props=C16 nopanic
func c_UTXOInput_OutputID(u *UTXOInput) {
	g.Requires(u != nil)
	id := u.OutputID()
	g.Ensures(id.TransactionID() == u.TransactionID, "the output identifier carries the transaction")
	g.Ensures(id.Index() == u.TransactionOutputIndex, "the output identifier carries the index")
	g.Ensures(id.CreationSlot() == u.TransactionID.Slot() && u.CreationSlot() == u.TransactionID.Slot() && id.Slot() == u.TransactionID.Slot(), "the output identifier carries the creation slot")
	g.Ensures(u.Index() == u.TransactionOutputIndex, "the input's index")
}

//gvc:contract target=OutputIDFromTransactionIDAndIndex props=C16 nopanic
func c_OutputIDFromTransactionIDAndIndex(tx TransactionID, index uint16) {
	id := OutputIDFromTransactionIDAndIndex(tx, index)
	g.Ensures(id.TransactionID() == tx && id.Index() == index, "the output identifier resolves to transaction and index")
	g.Ensures(id.Identifier() == tx.Identifier(), "the hash of an output identifier is that of the transaction")
}

//gvc:contract target=(OutputID).UTXOInput props=C16 nopanic
func c_OutputID_UTXOInput(id OutputID) {
	u := id.UTXOInput()
	g.Ensures(u != nil && u.TransactionID == id.TransactionID() && u.TransactionOutputIndex == id.Index(), "the input refers to transaction and index")
	g.Ensures(u.OutputID() == id, "an output identifier is the identifier of its input")
}

//gvc:contract target=EmptyOutputIDWithCreationSlot props=C16 nopanic
func c_EmptyOutputIDWithCreationSlot(slot SlotIndex) {
	id := EmptyOutputIDWithCreationSlot(slot)
	g.Ensures(id.CreationSlot() == slot && id.Index() == 0, "an empty identifier with the creation slot")
	g.Ensures(g.Forall(0, 32, func(i int) bool { return id[i] == 0 }), "the hash is empty")
}

//gvc:contract target=AccountIDFromOutputID props=C16 nopanic
func c_AccountIDFromOutputID(o OutputID) {
	id := AccountIDFromOutputID(o)
	g.Ensures(Identifier(id) == IdentifierFromData(o[:]), "the chain identifier is the hash of the output identifier")
	c := id.FromOutputID(o)
	g.Ensures(c.Matches(id) && id.Matches(c), "all ways to compute the identifier agree")
}

//gvc:contract target=(AccountID).Matches props=C16 nopanic
func c_AccountID_Matches(a, b AccountID) {
	g.Ensures(a.Matches(b) == (a == b), "identifiers match iff they are equal")
}

//gvc:contract target=(AccountID).ToAddress props=C16 nopanic
func c_AccountID_ToAddress(a AccountID) {
	addr := a.ToAddress()
	g.Ensures(addr != nil && addr.ChainID().Matches(a), "the address belongs to the identifier")
}

//gvc:contract target=AnchorIDFromOutputID props=C16 nopanic
func c_AnchorIDFromOutputID(o OutputID) {
	id := AnchorIDFromOutputID(o)
	g.Ensures(Identifier(id) == IdentifierFromData(o[:]), "the chain identifier is the hash of the output identifier")
	c := id.FromOutputID(o)
	g.Ensures(c.Matches(id) && id.Matches(c), "all ways to compute the identifier agree")
}

//gvc:contract target=(AnchorID).Matches props=C16 nopanic
func c_AnchorID_Matches(a, b AnchorID) {
	g.Ensures(a.Matches(b) == (a == b), "identifiers match iff they are equal")
}

//gvc:contract target=(AnchorID).ToAddress props=C16 nopanic
func c_AnchorID_ToAddress(a AnchorID) {
	addr := a.ToAddress()
	g.Ensures(addr != nil && addr.ChainID().Matches(a), "the address belongs to the identifier")
}

//gvc:contract target=NFTIDFromOutputID props=C16 nopanic
func c_NFTIDFromOutputID(o OutputID) {
	id := NFTIDFromOutputID(o)
	g.Ensures(Identifier(id) == IdentifierFromData(o[:]), "the chain identifier is the hash of the output identifier")
	c := id.FromOutputID(o)
	g.Ensures(c.Matches(id) && id.Matches(c), "all ways to compute the identifier agree")
}

//gvc:contract target=(NFTID).Matches props=C16 nopanic
func c_NFTID_Matches(a, b NFTID) {
	g.Ensures(a.Matches(b) == (a == b), "identifiers match iff they are equal")
}

//gvc:contract target=DelegationIDFromOutputID props=C16 nopanic
func c_DelegationIDFromOutputID(o OutputID) {
	id := DelegationIDFromOutputID(o)
	g.Ensures(Identifier(id) == IdentifierFromData(o[:]), "the chain identifier is the hash of the output identifier")
	c := id.FromOutputID(o)
	g.Ensures(c.Matches(id) && id.Matches(c), "all ways to compute the identifier agree")
}

//gvc:contract target=(DelegationID).Matches props=C16 nopanic
func c_DelegationID_Matches(a, b DelegationID) {
	g.Ensures(a.Matches(b) == (a == b), "identifiers match iff they are equal")
}
