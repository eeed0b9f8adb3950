package iotago

import (
	"math/big"

	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// tokenOf: the amount of the native token an output holds.
func tokenOf(o Output, id NativeTokenID) g.Int {
	f := o.FeatureSet().NativeToken()
	if f == nil || f.ID != id {
		return g.K(0)
	}
	return g.OldBig(f.Amount)
}

func tokenAmountOK(o Output) bool {
	f := o.FeatureSet().NativeToken()
	return f == nil || g.K(0).Lt(g.OldBig(f.Amount))
}

func tokenSum(l Outputs[Output], id NativeTokenID, n int) g.Int {
	return g.Sum(0, n, func(i int) g.Int { return tokenOf(l[i], id) })
}

//gvc:contract target=(Outputs[T]).NativeTokenSum props=C05 opaque=iface:(Output).FeatureSet freshwrites=big.Int invtimeout=20000
func c_NativeTokenSum(l Outputs[Output], id NativeTokenID) {
	g.Requires(g.Forall(0, len(l), func(i int) bool {
		return l[i] != nil && (l[i].FeatureSet().NativeToken() == nil || l[i].FeatureSet().NativeToken().Amount != nil)
	}))
	sum, err := l.NativeTokenSum()
	if err == nil {
		g.Ensures(g.Forall(0, len(l), func(i int) bool { return tokenAmountOK(l[i]) }), "no output holds zero or a negative amount of a native token")
		v, has := sum[id]
		g.Ensures(!has || v != nil, "no sum is nil")
		if has && v != nil {
			g.Ensures(g.Big(v).Eq(tokenSum(l, id, len(l))), "the sum of a native token is the sum of the amounts of the outputs")
			g.Ensures(g.Big(v).Lt(g.Pow2(256)), "the sum of a native token is less than 2^256")
		}
		g.Ensures(has == g.Exists(0, len(l), func(i int) bool {
			return l[i].FeatureSet().NativeToken() != nil && l[i].FeatureSet().NativeToken().ID == id
		}), "a native token has a sum iff some output holds it")
	}
}

//gvc:invariant for=c_NativeTokenSum
func inv_NTS1(sum map[NativeTokenID]*big.Int, id NativeTokenID) bool {
	return g.ForallMap(sum, func(k NativeTokenID, v *big.Int) bool { return v != nil && g.NewInLoop(v) && (k == id || v != sum[id]) })
}

//gvc:invariant for=c_NativeTokenSum
func inv_NTS2(l Outputs[Output], sum map[NativeTokenID]*big.Int, id NativeTokenID, i int) bool {
	v := sum[id]
	return v == nil || g.Big(v).Eq(tokenSum(l, id, i))
}

//gvc:invariant for=c_NativeTokenSum
func inv_NTS2b(l Outputs[Output], sum map[NativeTokenID]*big.Int, id NativeTokenID, i int) bool {
	v := sum[id]
	return v == nil || g.Big(v).Lt(g.Pow2(256))
}

//gvc:invariant for=c_NativeTokenSum
func inv_NTS3(l Outputs[Output], sum map[NativeTokenID]*big.Int, id NativeTokenID, i int) bool {
	return g.Forall(0, i, func(k int) bool { return tokenAmountOK(l[k]) })
}

//gvc:invariant for=c_NativeTokenSum
func inv_NTS4(l Outputs[Output], sum map[NativeTokenID]*big.Int, id NativeTokenID, i int) bool {
	_, has := sum[id]
	return has == g.Exists(0, i, func(k int) bool {
		return l[k].FeatureSet().NativeToken() != nil && l[k].FeatureSet().NativeToken().ID == id
	})
}

//gvc:invariant for=c_NativeTokenSum
func inv_NTS5(l Outputs[Output], sum map[NativeTokenID]*big.Int, id NativeTokenID, i int) bool {
	_, has := sum[id]
	return has || tokenSum(l, id, i).Eq(g.K(0))
}
