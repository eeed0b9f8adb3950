package nova

import (
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// Generated by tools/genexec.py. The rules which the virtual machine applies to a transaction: each of them must accept.

//gvc:contract target=NewVirtualMachine props=C07 stable unroll=10 opaque=vm.ExecFuncTimelocks$1,vm.ExecFuncSenderUnlocked$1,vm.ExecFuncBalancedBaseTokens$1,vm.ExecFuncBalancedNativeTokens$1,vm.ExecFuncChainTransitions$1,vm.ExecFuncBalancedMana$1,vm.ExecFuncAtMostOneImplicitAccountCreationAddress$1
func c_RunTimelocks(p *vm.Params) {
	g.Requires(p != nil)
	v := NewVirtualMachine()
	err := vm.RunVMFuncs(v, p, v.(*virtualMachine).execList...)
	g.Ensures(err != nil || vm.ExecFuncTimelocks()(v, p) == nil, "a transaction is accepted only if its timelocks are respected")
}

//gvc:contract target=NewVirtualMachine props=C06 stable unroll=10 opaque=vm.ExecFuncTimelocks$1,vm.ExecFuncSenderUnlocked$1,vm.ExecFuncBalancedBaseTokens$1,vm.ExecFuncBalancedNativeTokens$1,vm.ExecFuncChainTransitions$1,vm.ExecFuncBalancedMana$1,vm.ExecFuncAtMostOneImplicitAccountCreationAddress$1
func c_RunSenderUnlocked(p *vm.Params) {
	g.Requires(p != nil)
	v := NewVirtualMachine()
	err := vm.RunVMFuncs(v, p, v.(*virtualMachine).execList...)
	g.Ensures(err != nil || vm.ExecFuncSenderUnlocked()(v, p) == nil, "a transaction is accepted only if the senders it names are unlocked")
}

//gvc:contract target=NewVirtualMachine props=C03 stable unroll=10 opaque=vm.ExecFuncTimelocks$1,vm.ExecFuncSenderUnlocked$1,vm.ExecFuncBalancedBaseTokens$1,vm.ExecFuncBalancedNativeTokens$1,vm.ExecFuncChainTransitions$1,vm.ExecFuncBalancedMana$1,vm.ExecFuncAtMostOneImplicitAccountCreationAddress$1
func c_RunBalancedBaseTokens(p *vm.Params) {
	g.Requires(p != nil)
	v := NewVirtualMachine()
	err := vm.RunVMFuncs(v, p, v.(*virtualMachine).execList...)
	g.Ensures(err != nil || vm.ExecFuncBalancedBaseTokens()(v, p) == nil, "a transaction is accepted only if its base tokens are balanced")
}

//gvc:contract target=NewVirtualMachine props=C05 stable unroll=10 opaque=vm.ExecFuncTimelocks$1,vm.ExecFuncSenderUnlocked$1,vm.ExecFuncBalancedBaseTokens$1,vm.ExecFuncBalancedNativeTokens$1,vm.ExecFuncChainTransitions$1,vm.ExecFuncBalancedMana$1,vm.ExecFuncAtMostOneImplicitAccountCreationAddress$1
func c_RunBalancedNativeTokens(p *vm.Params) {
	g.Requires(p != nil)
	v := NewVirtualMachine()
	err := vm.RunVMFuncs(v, p, v.(*virtualMachine).execList...)
	g.Ensures(err != nil || vm.ExecFuncBalancedNativeTokens()(v, p) == nil, "a transaction is accepted only if its native tokens are balanced")
}

//gvc:contract target=NewVirtualMachine props=C08,C09,C10 stable unroll=10 opaque=vm.ExecFuncTimelocks$1,vm.ExecFuncSenderUnlocked$1,vm.ExecFuncBalancedBaseTokens$1,vm.ExecFuncBalancedNativeTokens$1,vm.ExecFuncChainTransitions$1,vm.ExecFuncBalancedMana$1,vm.ExecFuncAtMostOneImplicitAccountCreationAddress$1
func c_RunChainTransitions(p *vm.Params) {
	g.Requires(p != nil)
	v := NewVirtualMachine()
	err := vm.RunVMFuncs(v, p, v.(*virtualMachine).execList...)
	g.Ensures(err != nil || vm.ExecFuncChainTransitions()(v, p) == nil, "a transaction is accepted only if its chain transitions are valid")
}

//gvc:contract target=NewVirtualMachine props=C04 stable unroll=10 opaque=vm.ExecFuncTimelocks$1,vm.ExecFuncSenderUnlocked$1,vm.ExecFuncBalancedBaseTokens$1,vm.ExecFuncBalancedNativeTokens$1,vm.ExecFuncChainTransitions$1,vm.ExecFuncBalancedMana$1,vm.ExecFuncAtMostOneImplicitAccountCreationAddress$1
func c_RunBalancedMana(p *vm.Params) {
	g.Requires(p != nil)
	v := NewVirtualMachine()
	err := vm.RunVMFuncs(v, p, v.(*virtualMachine).execList...)
	g.Ensures(err != nil || vm.ExecFuncBalancedMana()(v, p) == nil, "a transaction is accepted only if its Mana is balanced")
}

//gvc:contract target=NewVirtualMachine props=C08 stable unroll=10 opaque=vm.ExecFuncTimelocks$1,vm.ExecFuncSenderUnlocked$1,vm.ExecFuncBalancedBaseTokens$1,vm.ExecFuncBalancedNativeTokens$1,vm.ExecFuncChainTransitions$1,vm.ExecFuncBalancedMana$1,vm.ExecFuncAtMostOneImplicitAccountCreationAddress$1
func c_RunAtMostOneImplicitAccountCreationAddress(p *vm.Params) {
	g.Requires(p != nil)
	v := NewVirtualMachine()
	err := vm.RunVMFuncs(v, p, v.(*virtualMachine).execList...)
	g.Ensures(err != nil || vm.ExecFuncAtMostOneImplicitAccountCreationAddress()(v, p) == nil, "a transaction is accepted only if it creates at most one account implicitly")
}

//gvc:contract target=(*virtualMachine).Execute props=C03,C04,C05,C06,C07,C08,C09,C10 stable opaque=vm.RunVMFuncs@2,vm/nova.NewVMParamsWorkingSet
func c_Execute(t *iotago.Transaction, r vm.ResolvedInputs, u vm.UnlockedAddresses) {
	g.Requires(t != nil && t.TransactionEssence != nil && t.API != nil)
	v := NewVirtualMachine().(*virtualMachine)
	outs, err := v.Execute(t, r, u)
	g.Ensures(err != nil || vm.RunVMFuncs(nil, nil, v.execList...) == nil, "a transaction is accepted only if all the rules of the virtual machine accept it")
	g.Ensures(err != nil || len(outs) == len(t.Outputs) && g.Forall(0, len(outs), func(i int) bool { return g.SameIface(outs[i], t.Outputs[i]) }), "an accepted transaction creates its outputs")
}

//gvc:invariant for=c_Execute
func inv_Execute(outputs []iotago.Output, transaction *iotago.Transaction, i int) bool {
	return len(outputs) == len(transaction.Outputs) && g.Forall(0, i, func(k int) bool { return g.SameIface(outputs[k], transaction.Outputs[k]) })
}
