package iotago

import (
	"encoding/binary"

	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// signedTxOf is the signed transaction a payload is, or nil.
func signedTxOf(p ApplicationPayload) *SignedTransaction {
	if t, is := p.(*SignedTransaction); is {
		return t
	}

	return nil
}

// agesOK: a slot may commit to another slot iff that is the genesis slot (or earlier) or old enough, and it is not too old.
func agesOK(slot SlotIndex, committed SlotIndex, genesis SlotIndex, minAge SlotIndex, maxAge SlotIndex) bool {
	return (committed <= genesis || g.N(committed).Add(g.N(minAge)).Le(g.N(slot))) && g.N(slot).Le(g.N(committed).Add(g.N(maxAge)))
}

func blockOK(b *Block) bool {
	return b != nil && b.API != nil && b.API.ProtocolParameters() != nil && b.API.TimeProvider() != nil
}

//gvc:contract target=(*BasicBlockBody).syntacticallyValidate props=C18 stable opaque=(*TimeProvider).SlotFromTime,(*Transaction).CommitmentInput,iface:(API).ProtocolParameters,iface:(API).TimeProvider,iface:(ProtocolParameters).GenesisSlot,iface:(ProtocolParameters).MinCommittableAge,iface:(ProtocolParameters).MaxCommittableAge
func c_BasicBlockBody_syntacticallyValidate(b *BasicBlockBody, block *Block) {
	g.Requires(b != nil && blockOK(block))
	tx := signedTxOf(b.Payload)
	g.Requires(tx == nil || (tx.Transaction != nil && tx.Transaction.TransactionEssence != nil))
	err := b.syntacticallyValidate(block)
	if tx == nil {
		g.Ensures(err == nil, "a block without a transaction has nothing further to satisfy")

		return
	}
	slot := block.Slot()
	p := block.API.ProtocolParameters()
	in := tx.Transaction.CommitmentInput()
	current := tx.Transaction.CreationSlot <= slot
	if in == nil {
		g.Ensures((err == nil) == current, "a transaction is not from the future of its block")

		return
	}
	c := in.CommitmentID.Slot()
	rest := current && c <= block.Header.SlotCommitmentID.Slot()
	g.Ensures(err != nil || rest && agesOK(slot, c, p.GenesisSlot(), p.MinCommittableAge(), p.MaxCommittableAge()), "a transaction is not from the future, and its commitment is of the right age and not newer than the block's")
	g.Ensures(err == nil || !(rest && agesOK(slot, c, 0, p.MinCommittableAge(), p.MaxCommittableAge())), "a transaction is accepted if its commitment is of the right age")
}

//gvc:contract target=(*ValidationBlockBody).syntacticallyValidate props=C18 stable
func c_ValidationBlockBody_syntacticallyValidate(b *ValidationBlockBody, block *Block) {
	g.Requires(b != nil && block != nil)
	err := b.syntacticallyValidate(block)
	g.Ensures((err == nil) == (b.HighestSupportedVersion >= block.Header.ProtocolVersion), "a validation block supports at least the version it has")
}

func inIDs(l BlockIDs, id BlockID) bool {
	return g.Exists(0, len(l), func(i int) bool { return l[i] == id })
}

//gvc:contract target=(*Block).syntacticallyValidate props=C18 stable opaque=(*TimeProvider).SlotFromTime,iface:(Sizer).Size,iface:(API).ProtocolParameters,iface:(API).TimeProvider,iface:(ProtocolParameters).GenesisSlot,iface:(ProtocolParameters).MinCommittableAge,iface:(ProtocolParameters).MaxCommittableAge,iface:(ProtocolParameters).NetworkID,iface:(ProtocolParameters).Version,iface:(ProtocolParameters).NetworkName,iface:(BlockBody).syntacticallyValidate,iface:(BlockBody).WeakParentIDs,iface:(BlockBody).StrongParentIDs,iface:(BlockBody).ShallowLikeParentIDs,(*Block).Size
func c_Block_syntacticallyValidate(b *Block, w int, x int) {
	g.Requires(blockOK(b) && b.Body != nil)
	weak, strong, shallow := b.Body.WeakParentIDs(), b.Body.StrongParentIDs(), b.Body.ShallowLikeParentIDs()
	g.Requires(w >= 0 && w < len(weak) && x >= 0 && (x < len(strong) || x < len(shallow)))
	err := b.syntacticallyValidate()
	p := b.API.ProtocolParameters()
	slot, c := b.Slot(), b.Header.SlotCommitmentID.Slot()
	if err == nil {
		g.Ensures(b.Size() <= MaxBlockSize, "a block is not too large")
		g.Ensures(b.Header.ProtocolVersion == p.Version() && b.Header.NetworkID == p.NetworkID(), "a block has the version and network it is validated for")
		g.Ensures(agesOK(slot, c, p.GenesisSlot(), p.MinCommittableAge(), p.MaxCommittableAge()), "the commitment of a block is of the right age")
		g.Ensures((x >= len(strong) || weak[w] != strong[x]) && (x >= len(shallow) || weak[w] != shallow[x]), "weak parents are disjoint from the other parents")
		g.Ensures(b.Body.syntacticallyValidate(b) == nil, "the body of a block is valid")
	}
}

//gvc:invariant for=c_Block_syntacticallyValidate
func inv_BlockWeak(nonWeakParents map[BlockID]struct{}, weak BlockIDs, w int, i int) bool {
	_, has := nonWeakParents[weak[w]]
	return i <= w || !has
}

//gvc:invariant for=c_Block_syntacticallyValidate
func inv_BlockStrongSeen(nonWeakParents map[BlockID]struct{}, strong BlockIDs, x int, i int) bool {
	return x >= len(strong) || i <= x || hasID(nonWeakParents, strong[x])
}

//gvc:invariant for=c_Block_syntacticallyValidate
func inv_BlockStrongAll(nonWeakParents map[BlockID]struct{}, strong BlockIDs, x int) bool {
	return x >= len(strong) || hasID(nonWeakParents, strong[x])
}

//gvc:invariant for=c_Block_syntacticallyValidate
func inv_BlockShallowSeen(nonWeakParents map[BlockID]struct{}, shallow BlockIDs, x int, i int) bool {
	return x >= len(shallow) || i <= x || hasID(nonWeakParents, shallow[x])
}

//gvc:invariant for=c_Block_syntacticallyValidate
func inv_BlockShallowAll(nonWeakParents map[BlockID]struct{}, shallow BlockIDs, x int) bool {
	return x >= len(shallow) || hasID(nonWeakParents, shallow[x])
}

func hasID(m map[BlockID]struct{}, id BlockID) bool {
	_, has := m[id]

	return has
}

//gvc:contract target=(*Block).syntacticallyValidate props=C18 stable opaque=(*TimeProvider).SlotFromTime,iface:(Sizer).Size,iface:(API).ProtocolParameters,iface:(API).TimeProvider,iface:(ProtocolParameters).GenesisSlot,iface:(ProtocolParameters).MinCommittableAge,iface:(ProtocolParameters).MaxCommittableAge,iface:(ProtocolParameters).NetworkID,iface:(ProtocolParameters).Version,iface:(ProtocolParameters).NetworkName,iface:(BlockBody).syntacticallyValidate,iface:(BlockBody).WeakParentIDs,iface:(BlockBody).StrongParentIDs,iface:(BlockBody).ShallowLikeParentIDs,(*Block).Size
func c_Block_syntacticallyValidate_plain(b *Block) {
	g.Requires(blockOK(b) && b.Body != nil && len(b.Body.WeakParentIDs()) == 0)
	err := b.syntacticallyValidate()
	p := b.API.ProtocolParameters()
	slot, c := b.Slot(), b.Header.SlotCommitmentID.Slot()
	g.Ensures((err == nil) == (b.Size() <= MaxBlockSize && b.Header.ProtocolVersion == p.Version() && b.Header.NetworkID == p.NetworkID() &&
		agesOK(slot, c, p.GenesisSlot(), p.MinCommittableAge(), p.MaxCommittableAge()) && b.Body.syntacticallyValidate(b) == nil), "a block without weak parents is accepted iff its size, version, network, commitment and body are valid")
}

//gvc:contract target=(*Transaction).CommitmentInput props=C18
func c_Transaction_CommitmentInput(t *Transaction) {
	g.Requires(t != nil && t.TransactionEssence != nil)
	l := t.TransactionEssence.ContextInputs
	r := t.CommitmentInput()
	if r == nil {
		g.Ensures(g.Forall(0, len(l), func(i int) bool { return !isCommitment(l[i]) }), "there is no commitment input if none is found")
	} else {
		g.Ensures(g.Exists(0, len(l), func(i int) bool { return g.SameIface(l[i], r) }), "the commitment input is one of the context inputs")
	}
}

//gvc:invariant for=c_Transaction_CommitmentInput
func inv_Transaction_CommitmentInput(t *Transaction, i int) bool {
	return g.Forall(0, i, func(k int) bool { return !isCommitment(t.TransactionEssence.ContextInputs[k]) })
}

//gvc:invariant for=c_Block_syntacticallyValidate
func inv_BlockKeys(collection []BlockID, result map[BlockID]struct{}, i int) bool {
	return g.Forall(0, i, func(k int) bool { _, has := result[collection[k]]; return has })
}

// nudgeBlock makes most of a block valid.
func nudgeBlock(r *g.Rand, b *Block) {
	p := b.API.ProtocolParameters()
	if r.Intn(8) > 0 {
		b.Header.ProtocolVersion = p.Version()
	}
	if r.Intn(8) > 0 {
		b.Header.NetworkID = p.NetworkID()
	}
	slot := b.Slot()
	c := slot - p.MinCommittableAge()
	switch r.Intn(8) {
	case 0:
		c = slot - p.MaxCommittableAge()
	case 1:
		c = p.GenesisSlot()
	case 2:
		c = slot
	}
	c += SlotIndex(r.Intn(3)) - 1
	if r.Intn(8) > 0 {
		binary.LittleEndian.PutUint32(b.Header.SlotCommitmentID[32:], uint32(c))
	}
}

//gvc:nudge
func nudge_Block_syntacticallyValidate(r *g.Rand, b *Block, w *int, x *int) {
	var weak, strong, shallow BlockIDs
	draw := func() BlockID {
		var id BlockID
		id[0] = byte(r.Intn(6))
		return id
	}
	for i := r.Intn(4); i >= 0; i-- {
		weak = append(weak, draw())
	}
	for i := r.Intn(4); i >= 0; i-- {
		strong = append(strong, draw())
	}
	for i := r.Intn(3); i > 0; i-- {
		shallow = append(shallow, draw())
	}
	if r.Intn(3) > 0 {
		b.Body = &ValidationBlockBody{API: b.API, WeakParents: weak, StrongParents: strong, ShallowLikeParents: shallow, HighestSupportedVersion: b.API.ProtocolParameters().Version()}
	} else {
		b.Body = &BasicBlockBody{API: b.API, WeakParents: weak, StrongParents: strong, ShallowLikeParents: shallow}
	}
	if _, is := b.Signature.(*Ed25519Signature); !is {
		b.Signature = &Ed25519Signature{}
	}
	*w = r.Intn(len(weak))
	*x = r.Intn(max(len(strong), len(shallow)))
	nudgeBlock(r, b)
}

//gvc:nudge
func nudge_Block_syntacticallyValidate_plain(r *g.Rand, b *Block) {
	b.Body = &ValidationBlockBody{API: b.API, HighestSupportedVersion: b.API.ProtocolParameters().Version() + Version(r.Intn(3)) - 1}
	if r.Intn(2) == 0 {
		b.Body = &BasicBlockBody{API: b.API}
	}
	b.Signature = &Ed25519Signature{}
	nudgeBlock(r, b)
}
