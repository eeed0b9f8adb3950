# Generates contracts/root/clones.go: every Clone makes a new object with the same contents; parts are cloned themselves.
o=['package iotago\n\nimport (\n\tg "github.com/iotaledger/iota.go/v4/zzgvc"\n)\n\nfunc sameBytes(a []byte, b []byte) bool {\n\treturn len(a) == len(b) && g.Forall(0, len(a), func(i int) bool { return a[i] == b[i] })\n}\n']
OP='iface:Clone()Address,iface:Clone()UnlockCondition,iface:Clone()Feature,iface:Clone()Output,iface:Clone()Unlock,iface:Clone()Signature,iface:Clone()Input,iface:Clone()ContextInput,iface:Clone()BlockIssuerKey,iface:Clone()TokenScheme,iface:Clone()Payload'
def con(name,target,recv,call,reqs,ens,extra='',params='',opaque=OP,ptr=True):
    s=f'//gvc:contract target={target} props=C19 stable opaque={opaque}{extra}\nfunc c_{name}_Clone({recv}{params}) {{\n'
    for r in reqs: s+=f'\tg.Requires({r})\n'
    s+=call
    for c,l in ens: s+=f'\tg.Ensures({c}, "{l}")\n'
    o.append(s+'}\n')
def inv(cn,name,params,body): o.append(f'//gvc:invariant for=c_{cn}_Clone\nfunc inv_Clone_{name}({params}) bool {{\n\treturn {body}\n}}\n')
# the same for loops written in another way: over the original's own field, growing the copy
def inv2(cn,name,T,path,cty,body=None):
    e=f'o.{path}'
    b=body or f'g.Copied(cpy[k], {e}[k].Clone(), {e}[k])'
    for sfx,ln in [('_own',f'len({e})'),('_grown','i')]:
        inv(cn,name+sfx,f'o *{T}, cpy {cty}, i int',f'len(cpy) == {ln} && g.Forall(0, i, func(k int) bool {{ return {b} }})')
NEW='the copy is a new object'
for t in ['Ed25519Address','AccountAddress','NFTAddress','AnchorAddress','ImplicitAccountCreationAddress']:
    con(t,f'(*{t}).Clone',f'a *{t}',f'\tc, is := a.Clone().(*{t})\n',['a != nil'],[('is && c != a && g.New(c)',NEW),('*c == *a','the copy has the same bytes')])
con('RestrictedAddress','(*RestrictedAddress).Clone','a *RestrictedAddress','\tc, is := a.Clone().(*RestrictedAddress)\n',['a != nil && a.Address != nil'],[('is && c != a && g.New(c) && g.New(c.AllowedCapabilities)',NEW),('g.Copied(c.Address, a.Address.Clone(), a.Address)','the address is cloned'),('sameBytes(c.AllowedCapabilities, a.AllowedCapabilities) && g.Disjoint(c.AllowedCapabilities, a.AllowedCapabilities)','the capabilities are copied')])
con('MultiAddressReference','(*MultiAddressReference).Clone','a *MultiAddressReference','\tc, is := a.Clone().(*MultiAddressReference)\n',['a != nil'],[('is && c != a && g.New(c) && g.New(c.MultiAddressID)',NEW),('sameBytes(c.MultiAddressID, a.MultiAddressID) && g.Disjoint(c.MultiAddressID, a.MultiAddressID)','the identifier is copied')])
part='g.New(c.Addresses[k]) && c.Addresses[k] != a.Addresses[k] && c.Addresses[k].Weight == a.Addresses[k].Weight && g.Copied(c.Addresses[k].Address, a.Addresses[k].Address.Clone(), a.Addresses[k].Address)'
con('MultiAddress','(*MultiAddress).Clone','a *MultiAddress','\tc, is := a.Clone().(*MultiAddress)\n',['a != nil && weightedNonNil(a.Addresses)'],[('is && c != a && g.New(c) && g.New(c.Addresses) && g.Disjoint(c.Addresses, a.Addresses)',NEW),('c.Threshold == a.Threshold && len(c.Addresses) == len(a.Addresses)','the copy has the same threshold and number of parts'),(f'g.Forall(0, len(a.Addresses), func(k int) bool {{ return {part} }})','every part is cloned')])
p2=part.replace('c.Add','cpy.Add').replace('a.Add','addr.Add')
inv('MultiAddress','MultiAddress','addr *MultiAddress, cpy *MultiAddress, i int',f'g.Forall(0, i, func(k int) bool {{ return {p2} }})')
# parts
def simple(t,iface,same,addrs):
    reqs=['o != nil']+[f'o.{a} != nil' for a in addrs]
    ens=[('is && c != o && g.New(c)',NEW)]
    if same: ens.append((' && '.join(f'c.{f} == o.{f}' for f in same),'the copy has the same values'))
    for a in addrs: ens.append((f'g.Copied(c.{a}, o.{a}.Clone(), o.{a})','the parts are cloned'))
    con(t,f'(*{t}).Clone',f'o *{t}',f'\tc, is := o.Clone().(*{t})\n',reqs,ens)
for t,same,ad in [('AddressUnlockCondition',[],['Address']),('ExpirationUnlockCondition',['Slot'],['ReturnAddress']),('GovernorAddressUnlockCondition',[],['Address']),('StateControllerAddressUnlockCondition',[],['Address']),('StorageDepositReturnUnlockCondition',['Amount'],['ReturnAddress']),('TimelockUnlockCondition',['Slot'],[]),
  ('IssuerFeature',[],['Address']),('SenderFeature',[],['Address']),('StakingFeature',['StakedAmount','FixedCost','StartEpoch','EndEpoch'],[]),
  ('UTXOInput',['TransactionID','TransactionOutputIndex'],[]),('BlockIssuanceCreditInput',['AccountID'],[]),('CommitmentInput',['CommitmentID'],[]),('RewardInput',['Index'],[]),
  ('AccountUnlock',['Reference'],[]),('AnchorUnlock',['Reference'],[]),('NFTUnlock',['Reference'],[]),('ReferenceUnlock',['Reference'],[]),('SignatureUnlock',[],['Signature']),
  ('Ed25519Signature',['PublicKey','Signature'],[]),('Ed25519PublicKeyHashBlockIssuerKey',['PublicKeyHash'],[])]:
    simple(t,None,same,ad)
con('ImmutableAccountUnlockCondition','(*ImmutableAccountUnlockCondition).Clone','o *ImmutableAccountUnlockCondition','\tc, is := o.Clone().(*ImmutableAccountUnlockCondition)\n',['o != nil && o.Address != nil'],[('is && c != o && g.New(c) && c.Address != o.Address && g.New(c.Address)',NEW),('*c.Address == *o.Address','the address is copied')],opaque='iface:Clone()Feature')
con('Allotment','(*Allotment).Clone','o *Allotment','\tc := o.Clone()\n',['o != nil'],[('c != o && g.New(c)',NEW),('c.AccountID == o.AccountID && c.Mana == o.Mana','the copy has the same values')])
con('TagFeature','(*TagFeature).Clone','o *TagFeature','\tc, is := o.Clone().(*TagFeature)\n',['o != nil'],[('is && c != o && g.New(c) && g.New(c.Tag) && g.Disjoint(c.Tag, o.Tag)',NEW),('sameBytes(c.Tag, o.Tag)','the tag is copied')])
con('TaggedData','(*TaggedData).Clone','o *TaggedData','\tc, is := o.Clone().(*TaggedData)\n',['o != nil'],[('is && c != o && g.New(c) && g.New(c.Tag) && g.Disjoint(c.Tag, o.Tag) && g.New(c.Data) && g.Disjoint(c.Data, o.Data)',NEW),('sameBytes(c.Tag, o.Tag) && sameBytes(c.Data, o.Data)','the contents are copied')])
con('NativeTokenFeature','(*NativeTokenFeature).Clone','o *NativeTokenFeature','\tc, is := o.Clone().(*NativeTokenFeature)\n',['o != nil && o.Amount != nil'],[('is && c != o && g.New(c) && c.Amount != o.Amount && g.New(c.Amount)',NEW),('c.ID == o.ID && g.Big(c.Amount).Eq(g.Big(o.Amount))','the copy has the same token and amount')])
con('SimpleTokenScheme','(*SimpleTokenScheme).Clone','o *SimpleTokenScheme','\tc, is := o.Clone().(*SimpleTokenScheme)\n',['o != nil && o.MintedTokens != nil && o.MeltedTokens != nil && o.MaximumSupply != nil'],[('is && c != o && g.New(c) && '+' && '.join(f'c.{f} != o.{f} && g.New(c.{f})' for f in ['MintedTokens','MeltedTokens','MaximumSupply']),NEW)]+[(' && '.join(f'g.Big(c.{f}).Eq(g.Big(o.{f}))' for f in ['MintedTokens','MeltedTokens','MaximumSupply']),'the copy has the same numbers'),('c.MintedTokens != c.MeltedTokens && c.MintedTokens != c.MaximumSupply && c.MeltedTokens != c.MaximumSupply','the numbers of the copy are separate')])
ent='func(k {K}, v {V}) bool {{ w, has := {m}[k]; return has && sameBytes(v, w) && g.New(v) && g.Disjoint(v, w) }}'
for t,K,V in [('MetadataFeature','MetadataFeatureEntriesKey','MetadataFeatureEntriesValue'),('StateMetadataFeature','StateMetadataFeatureEntriesKey','StateMetadataFeatureEntriesValue')]:
    con(t,f'({t}).Clone',f'o {t}',f'\tc, is := o.Clone().(*{t})\n',[],[('is && g.New(c) && g.New(c.Entries) && !g.Same(c.Entries, o.Entries)',NEW),
      (f'g.ForallMap(c.Entries, {ent.format(K=K,V=V,m="o.Entries")})','every entry of the copy is a copy of an entry'),(f'g.ForallMap(o.Entries, func(k {K}, v {V}) bool {{ _, has := c.Entries[k]; return has }})','every entry is copied')])
    inv(t,t+'1',f'copiedMap {t}Entries, m {t}',f'g.ForallMap(copiedMap, {ent.format(K=K,V=V,m="m.Entries")})')
    inv(t,t+'2',f'copiedMap {t}Entries, m {t}',f'g.VisitedForall(m.Entries, func(k {K}, v {V}) bool {{ _, has := copiedMap[k]; return has }})')
# lists
def lst(c,f,l): return f'len({c}.{f}) == len({l}.{f}) && g.New({c}.{f}) && g.Disjoint({c}.{f}, {l}.{f})'
LISTS=[]
def composite(t,flds,lists,parts,extra_req=(),target=None,wrap=True,pre=''):
    reqs=['o != nil']+list(extra_req)
    ens=[((('is && ' if wrap else '')+'c != o && g.New(c)'),NEW)]
    if flds: ens.append((' && '.join(f'c.{f} == o.{f}' for f in flds),'the copy has the same values'))
    for p in parts: ens.append((f'g.Copied(c.{p}, o.{p}.Clone(), o.{p})','the parts are cloned')); reqs.append(f'o.{p} != nil')
    for l,ty in lists:
        reqs.append(f'g.Forall(0, len(o.{l}), func(k int) bool {{ return o.{l}[k] != nil }})')
        ens.append((lst('c',l,'o'),'lists are copied to new lists'))
        ens.append((f'g.Forall(0, len(o.{l}), func(k int) bool {{ return g.Copied(c.{l}[k], o.{l}[k].Clone(), o.{l}[k]) }})','the elements of lists are cloned'))
        if (t,ty) not in LISTS:
            LISTS.append((t,ty))
            v,cp=('slice','cpy') if ty[1]=='lo' else (ty[1],'cpy')
            inv(t,f'{t}_{l}',f'{v} {ty[0]}, cpy {ty[2] if len(ty)>2 else ty[0]}, i int',f'len(cpy) == len({v}) && g.Forall(0, i, func(k int) bool {{ return g.Copied(cpy[k], {v}[k].Clone(), {v}[k]) }})')
            inv2(t,f'{t}_{l}',t,l,ty[2] if len(ty)>2 else ty[0])
    call=f'\tc, is := o.Clone().(*{t})\n' if wrap else '\tc := o.Clone()\n'
    con(t,target or f'(*{t}).Clone',f'o *{t}',call,reqs,ens)
UC=lambda x:('UnlockConditions',(f'UnlockConditions[{x}]','f'))
FE=lambda n,x:(n,(f'Features[{x}]','f'))
composite('BasicOutput',['Amount','Mana'],[UC('BasicOutputUnlockCondition'),FE('Features','BasicOutputFeature')],[])
composite('AccountOutput',['Amount','Mana','AccountID','FoundryCounter'],[UC('AccountOutputUnlockCondition'),FE('Features','AccountOutputFeature'),FE('ImmutableFeatures','AccountOutputImmFeature')],[])
composite('AnchorOutput',['Amount','Mana','AnchorID','StateIndex'],[UC('AnchorOutputUnlockCondition'),FE('Features','AnchorOutputFeature'),FE('ImmutableFeatures','AnchorOutputImmFeature')],[])
composite('FoundryOutput',['Amount','SerialNumber'],[UC('FoundryOutputUnlockCondition'),FE('Features','FoundryOutputFeature'),FE('ImmutableFeatures','FoundryOutputImmFeature')],['TokenScheme'])
composite('NFTOutput',['Amount','Mana','NFTID'],[UC('NFTOutputUnlockCondition'),FE('Features','NFTOutputFeature'),FE('ImmutableFeatures','NFTOutputImmFeature')],[])
OPD=OP.replace('iface:Clone()Address,','')
_OP=OP; OP=OPD
composite('DelegationOutput',['Amount','DelegatedAmount','DelegationID','StartEpoch','EndEpoch'],[UC('DelegationOutputUnlockCondition')],[],['o.ValidatorAddress != nil'])
o[-1]=o[-1].rstrip()[:-1]+'\tg.Ensures(c.ValidatorAddress != o.ValidatorAddress && g.New(c.ValidatorAddress) && *c.ValidatorAddress == *o.ValidatorAddress, "the validator address is copied")\n}\n'
o[-1]=o[-1].replace('opaque='+_OP,'opaque='+OPD)
OP=_OP
composite('BlockIssuerFeature',['ExpirySlot'],[('BlockIssuerKeys',('[]BlockIssuerKey','lo'))],[])
composite('MultiUnlock',[],[('Unlocks',('[]Unlock','lo'))],[])
ESS=[('ContextInputs',('ContextInputs[txEssenceContextInput]','in')),('Inputs',('Inputs[txEssenceInput]','in'))]
def essence(t,acc,target,call,fl):
    e='o'+acc; c='c'+acc
    reqs=['o != nil']+(['o.TransactionEssence != nil'] if acc else [])
    ens=[('c != o && g.New(c)'+(f' && {c} != {e} && g.New({c})' if acc else ''),NEW),(f'{c}.NetworkID == {e}.NetworkID && {c}.CreationSlot == {e}.CreationSlot','the copy has the same values'),
      (f'sameBytes({c}.Capabilities, {e}.Capabilities) && g.New({c}.Capabilities) && g.Disjoint({c}.Capabilities, {e}.Capabilities)','the capabilities are copied'),
      (f'{e}.Payload != nil || {c}.Payload == nil','the copy has a payload only if the original has'),(f'{e}.Payload == nil || g.Copied({c}.Payload, {e}.Payload.Clone(), {e}.Payload)','the payload is cloned')]
    for l,ty in ESS:
        reqs.append(f'g.Forall(0, len({e}.{l}), func(k int) bool {{ return {e}.{l}[k] != nil }})')
        ens.append((lst(c,l,e),'lists are copied to new lists'))
        ens.append((f'g.Forall(0, len({e}.{l}), func(k int) bool {{ return g.Copied({c}.{l}[k], {e}.{l}[k].Clone(), {e}.{l}[k]) }})','the elements of lists are cloned'))
        inv(t,f'{t}_{l}',f'in {ty[0]}, cpy {ty[0]}, i int',f'len(cpy) == len(in) && g.Forall(0, i, func(k int) bool {{ return g.Copied(cpy[k], in[k].Clone(), in[k]) }})')
        inv2(t,f'{t}_{l}',t,f'{acc[1:]+"." if acc else ""}{l}',ty[0])
    reqs.append(f'g.Forall(0, len({e}.Allotments), func(k int) bool {{ return {e}.Allotments[k] != nil }})')
    ens.append((lst(c,'Allotments',e),'lists are copied to new lists'))
    ens.append((f'g.Forall(0, len({e}.Allotments), func(k int) bool {{ return g.New({c}.Allotments[k]) && {c}.Allotments[k] != {e}.Allotments[k] && *{c}.Allotments[k] == *{e}.Allotments[k] }})','the allotments are cloned'))
    inv(t,f'{t}_Allotments','slice []*Allotment, cpy []*Allotment, i int','len(cpy) == len(slice) && g.Forall(0, i, func(k int) bool { return g.New(cpy[k]) && cpy[k] != slice[k] && *cpy[k] == *slice[k] })')
    A='o'+acc+'.Allotments'
    inv2(t,f'{t}_Allotments',t,f'{acc[1:]+"." if acc else ""}Allotments','Allotments',f'g.New(cpy[k]) && cpy[k] != {A}[k] && *cpy[k] == *{A}[k]')
    for l,ty in fl:
        reqs.append(f'g.Forall(0, len(o.{l}), func(k int) bool {{ return o.{l}[k] != nil }})')
        ens.append((lst('c',l,'o'),'lists are copied to new lists'))
        ens.append((f'g.Forall(0, len(o.{l}), func(k int) bool {{ return g.Copied(c.{l}[k], o.{l}[k].Clone(), o.{l}[k]) }})','the elements of lists are cloned'))
        inv(t,f'{t}_{l}',f'{ty[1]} {ty[0]}, cpy {ty[0]}, i int',f'len(cpy) == len({ty[1]}) && g.Forall(0, i, func(k int) bool {{ return g.Copied(cpy[k], {ty[1]}[k].Clone(), {ty[1]}[k]) }})')
        inv2(t,f'{t}_{l}',t,l,ty[0])
    if acc: ens.append(('g.SameIface(c.API, o.API)','the copy uses the same API'))
    con(t,target,f'o *{t}',call,reqs,ens)
essence('TransactionEssence','','(*TransactionEssence).Clone','\tc := o.Clone()\n',[])
essence('Transaction','.TransactionEssence','(*Transaction).Clone','\tc := o.Clone()\n',[('Outputs',('Outputs[TxEssenceOutput]','outputs'))])
o.append(f"""//gvc:contract target=(*SignedTransaction).Clone props=C19 stable opaque={OP},(*Transaction).Clone
func c_SignedTransaction_Clone(o *SignedTransaction) {{
	g.Requires(o != nil && o.Transaction != nil && o.Transaction.TransactionEssence != nil)
	g.Requires(g.Forall(0, len(o.Unlocks), func(k int) bool {{ return o.Unlocks[k] != nil }}))
	c, is := o.Clone().(*SignedTransaction)
	g.Ensures(is && c != o && g.New(c), "the copy is a new object")
	g.Ensures(g.SameIface(c.API, o.API) && g.CopiedPtr(c.Transaction, o.Transaction.Clone(), o.Transaction), "the transaction is cloned")
	g.Ensures({lst('c','Unlocks','o')}, "lists are copied to new lists")
	g.Ensures(g.Forall(0, len(o.Unlocks), func(k int) bool {{ return g.Copied(c.Unlocks[k], o.Unlocks[k].Clone(), o.Unlocks[k]) }}), "the elements of lists are cloned")
}}
""")
inv('SignedTransaction','SignedTransaction','slice []Unlock, cpy []Unlock, i int','len(cpy) == len(slice) && g.Forall(0, i, func(k int) bool { return g.Copied(cpy[k], slice[k].Clone(), slice[k]) })')
inv2('SignedTransaction','SignedTransaction','SignedTransaction','Unlocks','Unlocks')
for nm,K,V in [('OutputSet','OutputID','Output')]:
    o.append(f"""//gvc:contract target=({nm}).Clone props=C19 stable opaque={OP}
func c_{nm}_Clone(o {nm}) {{
	g.Requires(g.ForallMap(o, func(k {K}, v {V}) bool {{ return v != nil }}))
	c := o.Clone()
	g.Ensures(g.New(c) && !g.Same(c, o), "the copy is a new object")
	g.Ensures(g.ForallMap(c, func(k {K}, v {V}) bool {{ w, has := o[k]; return has && g.Copied(v, w.Clone(), w) }}), "every entry of the copy is the clone of an entry")
	g.Ensures(g.ForallMap(o, func(k {K}, v {V}) bool {{ _, has := c[k]; return has }}), "every entry is copied")
}}
""")
    inv(nm,nm+'1',f'in map[{K}]{V}, cpy map[{K}]{V}',f'g.ForallMap(cpy, func(k {K}, v {V}) bool {{ w, has := in[k]; return has && g.Copied(v, w.Clone(), w) }})')
    inv(nm,nm+'2',f'in map[{K}]{V}, cpy map[{K}]{V}',f'g.VisitedForall(in, func(k {K}, v {V}) bool {{ _, has := cpy[k]; return has }})')
    inv(nm,nm+'1_own',f'o {nm}, cpy {nm}',f'g.ForallMap(cpy, func(k {K}, v {V}) bool {{ w, has := o[k]; return has && g.Copied(v, w.Clone(), w) }})')
    inv(nm,nm+'2_own',f'o {nm}, cpy {nm}',f'g.VisitedForall(o, func(k {K}, v {V}) bool {{ _, has := cpy[k]; return has }})')
open('/verif/contracts/root/clones.go','w').write('\n'.join(o))
