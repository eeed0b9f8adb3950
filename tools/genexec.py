rules=[("Timelocks","C07","a transaction is accepted only if its timelocks are respected"),
("SenderUnlocked","C06","a transaction is accepted only if the senders it names are unlocked"),
("BalancedBaseTokens","C03","a transaction is accepted only if its base tokens are balanced"),
("BalancedNativeTokens","C05","a transaction is accepted only if its native tokens are balanced"),
("ChainTransitions","C08,C09,C10","a transaction is accepted only if its chain transitions are valid"),
("BalancedMana","C04","a transaction is accepted only if its Mana is balanced"),
("AtMostOneImplicitAccountCreationAddress","C08","a transaction is accepted only if it creates at most one account implicitly")]
op=",".join("vm.ExecFunc%s$1"%r[0] for r in rules)
o='''package nova

import (
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
	g "github.com/iotaledger/iota.go/v4/zzgvc"
)

// Generated by tools/genexec.py. The rules which the virtual machine applies to a transaction: each of them must accept.
'''
for n,p,l in rules:
    o+='''
//gvc:contract target=NewVirtualMachine props=%s stable unroll=10 opaque=%s
func c_Run%s(p *vm.Params) {
	g.Requires(p != nil)
	v := NewVirtualMachine()
	err := vm.RunVMFuncs(v, p, v.(*virtualMachine).execList...)
	g.Ensures(err != nil || vm.ExecFunc%s()(v, p) == nil, "%s")
}
'''%(p,op,n,n,l)
o+='''
//gvc:contract target=NewVirtualMachine props=C05 stable unroll=10 opaque=%s
func c_RunAll(p *vm.Params) {
	g.Requires(p != nil)
	v := NewVirtualMachine()
	err := vm.RunVMFuncs(v, p, v.(*virtualMachine).execList...)
	sums, chains := vm.ExecFuncBalancedNativeTokens()(v, p), vm.ExecFuncChainTransitions()(v, p)
	_ = chains
	g.Ensures(err != nil || sums == nil, "foundries are judged by the sums of their tokens")
}
'''%op
o=o[:o.rindex("\n//gvc:contract")]
o+='''
//gvc:contract target=(*virtualMachine).Execute props=C03,C04,C05,C06,C07,C08,C09,C10 stable opaque=vm.RunVMFuncs@2,vm/nova.NewVMParamsWorkingSet
func c_Execute(t *iotago.Transaction, r vm.ResolvedInputs, u vm.UnlockedAddresses) {
	g.Requires(t != nil && t.TransactionEssence != nil && t.API != nil)
	v := NewVirtualMachine().(*virtualMachine)
	outs, err := v.Execute(t, r, u)
	g.Ensures(err != nil || vm.RunVMFuncs(nil, nil, v.execList...) == nil, "a transaction is accepted only if all the rules of the virtual machine accept it")
	g.Ensures(err != nil || len(outs) == len(t.Outputs) && g.Forall(0, len(outs), func(i int) bool { return g.SameIface(outs[i], t.Outputs[i]) }), "an accepted transaction creates its outputs")
}

//gvc:invariant for=c_Execute
func inv_Execute(outputs []iotago.Output, transaction *iotago.Transaction, i int) bool {
	return len(outputs) == len(transaction.Outputs) && g.Forall(0, i, func(k int) bool { return g.SameIface(outputs[k], transaction.Outputs[k]) })
}
'''
open('/verif/contracts/vm/nova/execute.go','w').write(o)
