package nova

import (
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

//gvc:contract target=(*virtualMachine).ChainSTVF props=C08,C09,C10 opaque=vm/nova.accountSTVF,vm/nova.anchorSTVF,vm/nova.nftSTVF,vm/nova.foundrySTVF,vm/nova.delegationSTVF,vm/nova.implicitAccountSTVF
func c_ChainSTVF(nova *virtualMachine, p *vm.Params, tt iotago.ChainTransitionType, input *vm.ChainOutputWithIDs, next iotago.ChainOutput) {
	g.Requires(nova != nil && paramsOK(p))
	g.Requires(tt == iotago.ChainTransitionTypeGenesis || input != nil && input.Output != nil)
	g.Requires(tt != iotago.ChainTransitionTypeGenesis || next != nil)
	var o iotago.ChainOutput = next
	if tt != iotago.ChainTransitionTypeGenesis {
		o = input.Output
	}
	err := nova.ChainSTVF(p, tt, input, next)
	ok := false
	switch x := o.(type) {
	case *iotago.AccountOutput:
		n, is := next.(*iotago.AccountOutput)
		ok = (next == nil || is) && accountSTVF(p, input, tt, n) == nil
	case *vm.ImplicitAccountOutput:
		n, is := next.(*iotago.AccountOutput)
		ok = (next == nil || is) && implicitAccountSTVF(p, x, input.OutputID, n, tt) == nil
	case *iotago.AnchorOutput:
		n, is := next.(*iotago.AnchorOutput)
		ok = (next == nil || is) && anchorSTVF(p, input, tt, n) == nil
	case *iotago.FoundryOutput:
		n, is := next.(*iotago.FoundryOutput)
		ok = (next == nil || is) && foundrySTVF(p, input, tt, n) == nil
	case *iotago.NFTOutput:
		n, is := next.(*iotago.NFTOutput)
		ok = (next == nil || is) && nftSTVF(p, input, tt, n) == nil
	case *iotago.DelegationOutput:
		n, is := next.(*iotago.DelegationOutput)
		ok = (next == nil || is) && delegationSTVF(p, input, tt, n) == nil
	}
	g.Ensures((err == nil) == ok, "a chain transition is accepted iff both states are of the same kind and the rules of that kind accept it")
}
