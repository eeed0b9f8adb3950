package iotago

import (
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// chainIn: the identifier of the chain an output continues or creates at a position of a transaction.
func chainIn(o ChainOutput, tx TransactionID, i int) ChainID {
	c := o.ChainID()
	if c.Empty() {
		if u, is := c.(UTXOIDChainID); is {
			return u.FromOutputID(OutputIDFromTransactionIDAndIndex(tx, uint16(i)))
		}
	}
	return c
}

//gvc:contract target=(Outputs[T]).ChainOutputSet props=C08,C09,C10 stable opaque=iface:(ChainOutput).ChainID,iface:(ChainID).Empty,iface:(UTXOIDChainID).FromOutputID,OutputIDFromTransactionIDAndIndex
func c_ChainOutputSet(outs Outputs[TxEssenceOutput], tx TransactionID, at int, k ChainID) {
	g.Requires(outsNonNil(outs) && at >= 0 && at < len(outs))
	g.Requires(g.Forall(0, len(outs), func(i int) bool {
		c, is := outs[i].(ChainOutput)
		return !is || c.ChainID() != nil
	}))
	set := outs.ChainOutputSet(tx)
	if c, is := outs[at].(ChainOutput); is {
		_, has := set[chainIn(c, tx, at)]
		g.Ensures(has, "every chain among the outputs is in the set under its identifier")
	}
	o, has := set[k]
	g.Ensures(!has || o != nil && g.Exists(0, len(outs), func(i int) bool {
		c, is := outs[i].(ChainOutput)
		return is && g.SameIface(c, o) && chainIn(c, tx, i) == k
	}), "every entry of the set is an output filed under the identifier of its chain")
}

//gvc:invariant for=c_ChainOutputSet
func inv_ChainOutputSet1(outputs Outputs[TxEssenceOutput], txID TransactionID, set ChainOutputSet, at int, outputIndex int) bool {
	c, is := outputs[at].(ChainOutput)
	if at >= outputIndex || !is {
		return true
	}
	_, has := set[chainIn(c, txID, at)]
	return has
}

//gvc:invariant for=c_ChainOutputSet
func inv_ChainOutputSet2(outputs Outputs[TxEssenceOutput], txID TransactionID, set ChainOutputSet, k ChainID, outputIndex int) bool {
	o, has := set[k]
	return !has || o != nil && g.Exists(0, outputIndex, func(j int) bool {
		c, is := outputs[j].(ChainOutput)
		return is && g.SameIface(c, o) && chainIn(c, txID, j) == k
	})
}
