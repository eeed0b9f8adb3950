#!/usr/bin/env python3
# Generates contracts/root/ids.go (one block per identifier type).
import os
o=['// Code generated by tools/genids.py.','','package iotago','','import (','	g "github.com/iotaledger/iota.go/v4/zzgvc"',')','']
A=o.append
A('''// le32 is the little endian value of four bytes.
func le32(a, b, c, d byte) g.Int {
	return g.N(a).Add(g.N(b).Mul(g.K(256))).Add(g.N(c).Mul(g.K(65536))).Add(g.N(d).Mul(g.K(16777216)))
}
''')
for T in ["BlockID","CommitmentID","TransactionID","SignedTransactionID"]:
    A(f'''//gvc:contract target=New{T} props=C16 nopanic
func c_New{T}(slot SlotIndex, h Identifier) {{
	id := New{T}(slot, h)
	g.Ensures(id.Slot() == slot, "the identifier carries the slot")
	g.Ensures(id.Identifier() == h, "the identifier carries the hash")
	g.Ensures(g.Forall(0, 32, func(i int) bool {{ return id[i] == h[i] }}), "the first 32 bytes are the hash")
	g.Ensures(le32(id[32], id[33], id[34], id[35]).Eq(g.N(slot)), "the last four bytes are the slot in little endian")
	g.Ensures(id == New{T}(id.Slot(), id.Identifier()), "the identifier is determined by slot and hash")
}}

//gvc:contract target=({T}).Identifier props=C16 nopanic
func c_{T}_parts(id {T}) {{
	h := id.Identifier()
	g.Ensures(New{T}(id.Slot(), h) == id, "every identifier is made of its hash and slot")
}}

//gvc:contract target={T}RepresentingData props=C16 nopanic
func c_{T}RepresentingData(slot SlotIndex, data []byte) {{
	id := {T}RepresentingData(slot, data)
	g.Ensures(id.Slot() == slot, "the identifier carries the slot")
	g.Ensures(id.Identifier() == IdentifierFromData(data), "the identifier carries the hash of the data")
}}
''')
for T,n in [("BlockID",36),("CommitmentID",36),("TransactionID",36),("SignedTransactionID",36),("OutputID",38),("Identifier",32),("AccountID",32),("AnchorID",32)]:
    A(f'''//gvc:contract target={T}FromBytes props=C16 nopanic
func c_{T}FromBytes(b []byte) {{
	id, n, err := {T}FromBytes(b)
	g.Ensures((err == nil) == (len(b) >= {n}), "exactly the inputs that are too short are errors")
	g.Ensures(g.Implies(err == nil, n == {n}), "the number of bytes consumed")
	g.Ensures(g.Implies(err != nil, n == 0 && id.Empty()), "nothing is returned with an error")
	if err == nil {{
		g.Ensures(g.Forall(0, {n}, func(i int) bool {{ return id[i] == b[i] }}), "the identifier holds the bytes")
	}}
}}

//gvc:contract target=({T}).Bytes props=C16 nopanic
func c_{T}_Bytes(id {T}) {{
	b, err := id.Bytes()
	g.Ensures(err == nil && len(b) == {n}, "the bytes of an identifier")
	g.Ensures(g.Forall(0, {n}, func(i int) bool {{ return id[i] == b[i] }}), "the bytes are those of the identifier")
	id2, _, err2 := {T}FromBytes(b)
	g.Ensures(err2 == nil && id2 == id, "parsing the bytes gives the identifier back")
}}

//gvc:contract target=IsValid{T} props=C16 nopanic
func c_IsValid{T}(b []byte) {{
	g.Ensures((IsValid{T}(b) == nil) == (len(b) == {n}), "exactly the right length is valid")
}}

//gvc:contract target=({T}).Empty props=C16 nopanic
func c_{T}_Empty(id {T}) {{
	g.Ensures(id.Empty() == g.Forall(0, {n}, func(i int) bool {{ return id[i] == 0 }}), "an identifier is empty iff all bytes are zero")
}}
'''.replace('''//gvc:contract target=IsValidIdentifier''','//gvc:contract target=IsValidIdentifier'))
for T in ["SlotIndex","EpochIndex"]:
    A(f'''//gvc:contract target={T}FromBytes props=C16 nopanic
func c_{T}FromBytes(b []byte) {{
	s, n, err := {T}FromBytes(b)
	g.Ensures((err == nil) == (len(b) >= 4), "exactly the inputs that are too short are errors")
	if err == nil {{
		g.Ensures(n == 4 && le32(b[0], b[1], b[2], b[3]).Eq(g.N(s)), "the index is stored in little endian")
	}}
}}

//gvc:contract target=({T}).Bytes props=C16 nopanic
func c_{T}_Bytes(s {T}) {{
	b, err := s.Bytes()
	g.Ensures(err == nil && len(b) == 4, "four bytes")
	s2, _, err2 := {T}FromBytes(b)
	g.Ensures(err2 == nil && s2 == s, "parsing the bytes gives the index back")
}}
''')
A('''//gvc:contract target=(*UTXOInput).OutputID props=C16 nopanic
func c_UTXOInput_OutputID(u *UTXOInput) {
	g.Requires(u != nil)
	id := u.OutputID()
	g.Ensures(id.TransactionID() == u.TransactionID, "the output identifier carries the transaction")
	g.Ensures(id.Index() == u.TransactionOutputIndex, "the output identifier carries the index")
	g.Ensures(id.CreationSlot() == u.TransactionID.Slot() && u.CreationSlot() == u.TransactionID.Slot() && id.Slot() == u.TransactionID.Slot(), "the output identifier carries the creation slot")
	g.Ensures(u.Index() == u.TransactionOutputIndex, "the input's index")
}

//gvc:contract target=OutputIDFromTransactionIDAndIndex props=C16 nopanic
func c_OutputIDFromTransactionIDAndIndex(tx TransactionID, index uint16) {
	id := OutputIDFromTransactionIDAndIndex(tx, index)
	g.Ensures(id.TransactionID() == tx && id.Index() == index, "the output identifier resolves to transaction and index")
	g.Ensures(id.Identifier() == tx.Identifier(), "the hash of an output identifier is that of the transaction")
}

//gvc:contract target=(OutputID).UTXOInput props=C16 nopanic
func c_OutputID_UTXOInput(id OutputID) {
	u := id.UTXOInput()
	g.Ensures(u != nil && u.TransactionID == id.TransactionID() && u.TransactionOutputIndex == id.Index(), "the input refers to transaction and index")
	g.Ensures(u.OutputID() == id, "an output identifier is the identifier of its input")
}

//gvc:contract target=EmptyOutputIDWithCreationSlot props=C16 nopanic
func c_EmptyOutputIDWithCreationSlot(slot SlotIndex) {
	id := EmptyOutputIDWithCreationSlot(slot)
	g.Ensures(id.CreationSlot() == slot && id.Index() == 0, "an empty identifier with the creation slot")
	g.Ensures(g.Forall(0, 32, func(i int) bool { return id[i] == 0 }), "the hash is empty")
}
''')
for T in ["AccountID","AnchorID"]:
    A(f'''//gvc:contract target={T}FromOutputID props=C16 nopanic
func c_{T}FromOutputID(o OutputID) {{
	id := {T}FromOutputID(o)
	g.Ensures(Identifier(id) == IdentifierFromData(o[:]), "the chain identifier is the hash of the output identifier")
	c := id.FromOutputID(o)
	g.Ensures(c.Matches(id) && id.Matches(c), "all ways to compute the identifier agree")
}}

//gvc:contract target=({T}).Matches props=C16 nopanic
func c_{T}_Matches(a, b {T}) {{
	g.Ensures(a.Matches(b) == (a == b), "identifiers match iff they are equal")
}}

//gvc:contract target=({T}).ToAddress props=C16 nopanic
func c_{T}_ToAddress(a {T}) {{
	addr := a.ToAddress()
	g.Ensures(addr != nil && addr.ChainID().Matches(a), "the address belongs to the identifier")
}}
''')
for T in ["NFTID","DelegationID"]:
    A(f'''//gvc:contract target={T}FromOutputID props=C16 nopanic
func c_{T}FromOutputID(o OutputID) {{
	id := {T}FromOutputID(o)
	g.Ensures(Identifier(id) == IdentifierFromData(o[:]), "the chain identifier is the hash of the output identifier")
	c := id.FromOutputID(o)
	g.Ensures(c.Matches(id) && id.Matches(c), "all ways to compute the identifier agree")
}}

//gvc:contract target=({T}).Matches props=C16 nopanic
func c_{T}_Matches(a, b {T}) {{
	g.Ensures(a.Matches(b) == (a == b), "identifiers match iff they are equal")
}}
''')
open(os.path.join(os.path.dirname(__file__),"..","contracts","root","ids.go"),"w").write("\n".join(o))
