#!/usr/bin/env python3
# Generates properties.jsonl (the table below is the source of truth).
import json,os
P=[]
def p(id,title,stmt,over,q,why,files,mech,obs=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None)))
I=["inputs"]; IC=["inputs","configurations"]
p("C01","Mana decay and generation are exact fixed-point arithmetic",
 "For every mana value, epoch distance and decay table, decayed mana is the repeated application of floor(value*factor/2^exponent) over chunks of at most the table length, never exceeds the undecayed value and never wraps around; a value above the representable range is reported as an error. Mana generated for an amount of base tokens over a span of slots equals the protocol's closed fixed-point formula, with the first, intermediate and last epoch terms each computed exactly, and any overflow on the way is an error instead of a wrong number.",
 IC,"all 64-bit values, all epoch/slot pairs, all parameter sets in the protocol's valid range",
 "The tests compare a few hundred values of one parameter set with a float approximation; an off-by-one in the split multiplication or a lost carry shows only for particular high/low words.",
 ["mana_decay_provider.go","mana.go"],[("fixedPointMultiplication32Splitted / fixedPointMultiplication32","mana_decay_provider.go"),("decay / generateMana / GenerateManaAndDecayBySlots / DecayManaBySlots","mana_decay_provider.go")],["return values of the mana decay provider"])
p("C02","Slots, epochs and wall-clock times convert consistently",
 "For every configuration, a time lies in exactly the slot whose start and end times enclose it, slots and epochs partition the timeline without gaps or overlaps, and epoch start/end slots belong to that epoch while their neighbours belong to the adjacent ones. The number of slots before the next epoch and since the epoch's start are measured within the epoch the slot belongs to.",
 IC,"all slots, epochs and times representable without overflow, all genesis slots and slot/epoch durations",
 "The tests check a handful of slots for three configurations; boundaries and other genesis slots are not enumerated.",
 ["timeprovider.go"],[("EpochFromSlot/EpochStart/EpochEnd","timeprovider.go"),("SlotFromTime/SlotStartTime/SlotEndTime","timeprovider.go"),("SlotsBeforeNextEpoch/SlotsSinceEpochStart","timeprovider.go")])
p("C03","Accepted transactions conserve base tokens",
 "A transaction passes the base token check only if the exact sum of the base tokens of all inputs equals the exact sum over all outputs (for totals within the number type, which the supply bound on outputs guarantees). Every storage deposit return owed by an input that is not expired is paid back in full: the outputs that are plain transfers to the return address hold at least the exact sum of all amounts to be returned to it.",
 I,"all input sets and output lists",
 "Tests use transactions with few outputs and no extreme amounts; wrap-around in the sums or a forgotten output type needs specific combinations.",
 ["vm/vm.go","vm/nova/vm.go","output.go"],[("ExecFuncBalancedBaseTokens","vm/vm.go"),("Outputs sums / simple transfers","output.go")],["result of the base token balance check"])
p("C04","Accepted transactions never create mana",
 "The mana available to a transaction is exactly the decayed stored mana plus the generated potential mana of all inputs plus claimed rewards, and the mana it consumes is exactly the stored mana of all outputs plus all allotments; overflow is an error. A transaction is accepted by the mana check only if consumption does not exceed availability, and only if they are equal unless it is explicitly allowed to burn mana.",
 I,"all input sets, output lists, allotments, slots and reward maps",
 "The tests cover some ten hand-made transactions; a dropped summand, a wrong slot or a wrap-around is visible only for particular compositions.",
 ["vm/vm.go","vm/nova/vm.go","mana.go","allotment.go"],[("TotalManaIn / TotalManaOut","vm/vm.go"),("ExecFuncBalancedMana","vm/vm.go"),("PotentialMana","mana.go")])
p("C05","Native tokens change supply only through their foundry",
 "Without the matching foundry in the transaction, a native token's exact total over all outputs never exceeds its total over the inputs, and is lower only if burning native tokens is allowed. When the foundry is present, circulating supply never becomes negative or exceeds the maximum supply, minted and melted amounts only grow, and the tokens created or destroyed in the transaction equal exactly what the foundry records as minted or melted.",
 I,"all 256-bit token amounts, all foundry states, all input/output sets",
 "The tests use small token counts and a dozen scheme states; the property is over all sums and all 256-bit counters.",
 ["token_scheme_simple.go","vm/vm.go","output.go","feat_native_token.go"],[("SimpleTokenScheme.StateTransition / SyntacticalValidation","token_scheme_simple.go"),("ExecFuncBalancedNativeTokens","vm/vm.go"),("NativeTokenSum","output.go")])
p("C06","Inputs are consumed only with a valid unlock",
 "An input's address is unlocked only by a signature that matches the address and verifies over the transaction, by a reference to an earlier input unlocked by the same identity, by a reference to the earlier unlocked account, anchor or NFT that is the address, or by a multi unlock whose parts each validly unlock their address and together reach the threshold weight. Unlocks that repeat a signer's signature, refer to later or unsuitable positions, or nest references are rejected.",
 I,"all transactions with any list of unlocks and any address types",
 "Tests exercise around thirty unlock lists; accepting one wrong combination of address type, unlock type and position is enough to lose funds.",
 ["vm/vm.go","unlock.go","unlock_multi.go","address_multi.go","signature_ed25519.go"],[("unlockAddress / ValidateUnlocks","vm/vm.go"),("SignaturesUniqueAndReferenceUnlocksValidator","unlock.go"),("MatchesAddress","signature_ed25519.go")])
p("C07","Timelock and expiration decide who may unlock and when",
 "A timelocked output cannot be unlocked before its slot has certainly passed. An output with an expiration can be unlocked only by its owner while it certainly has not expired, only by the return address once it certainly has, and by nobody in the uncertain window in between; at no point can both unlock it.",
 I,"all condition slots, commitment slots and committable-age bounds",
 "The tests fix a few slots; the boundary behaviour quantifies over all slot triples, including numeric extremes.",
 ["unlock_cond.go","unlock_cond_timelock.go","unlock_cond_expiration.go","vm/vm.go"],[("TimelocksExpired / ownerIdentCanUnlock / returnIdentCanUnlock / CheckExpirationCondition","unlock_cond.go"),("ExecFuncTimelocks / PastBoundedSlotIndex / FutureBoundedSlotIndex","vm/vm.go")])
p("C08","Account outputs evolve only as the protocol allows",
 "An accepted account transition keeps its immutable features and identifier, the foundry counter only grows by exactly the foundries created for that account in the transaction, and a block issuer or staking feature can be changed, removed or added only under the protocol's expiry, credit, epoch and reward-claim rules. A new account starts with a zero counter, and destroying an account is refused while it still is an unexpired block issuer, has negative credits or is bound by an unfinished stake.",
 I,"all pairs of account states and all transaction contexts",
 "The tests walk through a table of selected transitions; the rules have to hold for every pair of states and every slot relation.",
 ["vm/nova/vm.go","output_account.go","feat_blockissuer.go","feat_staking.go"],[("accountSTVF / accountGovernanceSTVF / accountBlockIssuerSTVF / accountStakingSTVF / accountDestructionValid","vm/nova/vm.go")])
p("C09","Anchor, NFT and foundry outputs keep their immutable state",
 "An accepted NFT transition keeps its immutable features; an anchor's state transition increases its state index by exactly one, keeps its addresses and metadata and its governance transition keeps its state index, token amounts and state metadata; a foundry keeps its serial number, token scheme type, owning account and immutable features. A new foundry takes one of the serial numbers its account opened in the same transaction, in order, and new anchors start at state index zero.",
 I,"all pairs of states and all transaction contexts",
 "The tests use a table of transitions with single field changes; every field and combination has to be covered.",
 ["vm/nova/vm.go","output_anchor.go","output_foundry.go","output_nft.go"],[("anchorSTVF / foundrySTVF / nftSTVF","vm/nova/vm.go")])
p("C10","Delegation outputs are bound to their epochs, amount and validator",
 "A new delegation starts in the epoch after the transaction's commitment (or the one after it when the validator set is already fixed), has no end epoch, and delegates exactly its base token amount; it may only transition once, into delayed claiming, changing nothing but its identifier, its claim address and setting its end epoch, and it can be destroyed with reward claiming as its only other fate. Rewards can be claimed only in those transitions.",
 I,"all pairs of delegation states and all commitment slots",
 "The tests use a table of states near one epoch boundary.",
 ["vm/nova/vm.go","output_delegation.go"],[("delegationSTVF / delegationGenesisValid / delegationStateChangeValid / delegationDestructionValid","vm/nova/vm.go")])
p("C11","Every created output covers its storage deposit",
 "An output is accepted only if its base tokens are at least the storage score of its full content times the storage cost, a storage deposit return must cover the cost of a minimal output for the return address, and the storage score is the exact sum of the offsets, the weighted size and the scores of every counted element of the output. The multiplication with the storage cost reports an error when it would overflow.",
 IC,"all outputs and storage parameters",
 "Tests check a few outputs under one parameter set.",
 ["storagescore.go","output.go","output_basic.go","output_account.go","output_anchor.go","output_foundry.go","output_nft.go","output_delegation.go","unlock_cond.go","feat.go"],[("StorageScoreStructure.MinDeposit / CoversMinDeposit","storagescore.go"),("OutputsSyntacticalDepositAmount","output.go")])
p("C12","Malformed outputs and transactions are rejected",
 "A transaction that passes validation has outputs whose base tokens are positive and in total at most the supply, mana within its bit width, unique inputs with indices in range, strictly ordered unique context inputs and allotments, at most one new object per chain identifier and one foundry per serial number, no output owned by itself, and a commitment input whenever a context input or timing condition needs one. Elements in wrong order, duplicates and out-of-range values are always reported as errors.",
 I,"all transactions with any number of inputs, outputs and context inputs",
 "The tests contain one or two offending examples per rule, mostly at the first position; the rules are universally quantified over positions and values.",
 ["output.go","input.go","input_context.go","transaction.go","transaction_essence.go","syntax_validator.go","allotment.go"],[("OutputsSyntactical* validators","output.go"),("InputsSyntactical*, ContextInputs*","input.go"),("LexicalOrderAndUniquenessValidator / UniquenessValidator","syntax_validator.go"),("allotmentMaxManaValidator","allotment.go")])
p("C13","Address text encoding round-trips and rejects corruption",
 "Encoding bytes with a human-readable prefix and decoding the text gives back the same prefix and bytes, mixed-case or non-printable text is rejected, and the final checksum characters are determined by the rest, so any change confined to one character is detected. Decoding never crashes, whatever the text.",
 I,"all byte strings, all prefixes and all input texts",
 "The test vectors are a fixed list of about forty strings.",
 ["bech32/bech32.go","bech32/internal/base32/base32.go","bech32/charset.go","address.go"],[("bech32.Encode / Decode / polymod","bech32"),("base32 Encode / Decode","bech32/internal/base32")])
p("C14","Merkle inclusion proofs prove exactly the committed values",
 "For every list of values and every position, the proof computed for that position hashes to the root of the whole list and contains that value, and positions outside the list are refused. The tree's shape depends only on the number of values: the left subtree holds the largest power of two smaller than the count.",
 I,"all list lengths and positions",
 "The tests try small lists with fixed contents.",
 ["merklehasher/merkle_hasher.go","merklehasher/proof.go","output_id_proof.go"],[("Hasher.Hash / ComputeProofForIndex / LargestPowerOfTwo","merklehasher"),("Proof.Hash / ContainsValue","merklehasher/proof.go")])
p("C15","Capability bit masks read back what was set and are enforced",
 "Setting a capability makes exactly that bit read as set and leaves every other bit unchanged, for every bit position and mask length, and trailing empty bytes are rejected. An output locked to a restricted address is accepted only if the address allows every kind of content and condition the output actually has.",
 I,"all masks, all bit indices, all outputs with restricted addresses",
 "The tests set a few bits of short masks and a few outputs.",
 ["bitmask.go","address_capabilities_bitmask.go","transaction_capabilities_bitmask.go","address_restricted.go","output.go"],[("BitMaskHasBit / BitMaskSetBit / BitMaskNonTrailingZeroBytesValidatorFunc","bitmask.go"),("OutputsSyntacticalAddressRestrictions","output.go")])
p("C16","Identifiers carry their slot and index faithfully",
 "Transaction, output, block and commitment identifiers built from a hash, a slot and an index return exactly that hash, slot and index, byte conversions of identifiers, slots and epochs are inverse to each other, and an output identifier resolves to the transaction and index it was made from. Parsing inputs that are too short fails with an error.",
 I,"all hashes, slots, indices and byte strings",
 "The tests use one or two sample identifiers.",
 ["output_id.go","output_id.gen.go","transaction_id.gen.go","block_id.gen.go","commitment_id.gen.go","slot_index.gen.go","epoch_index.gen.go","identifier.gen.go","input_utxo.go","identifier_account.gen.go"],[("New*ID, Slot, Index, Bytes, FromBytes","*_id.gen.go"),("UTXOInput.OutputID","input_utxo.go")])
p("C17","Work scores are exact sums and overflow is an error",
 "The work score of every element equals the exact weighted sum of its parts under the given parameters, and every addition or multiplication that exceeds the number range is reported as an error instead of wrapping. The mana cost of a block is its work score times the reference mana cost, again exact or an error.",
 IC,"all payload shapes and all work score parameters",
 "The tests evaluate a couple of blocks with small parameters.",
 ["workscore.go","block.go","transaction.go","output.go","feat.go","unlock.go","mana.go"],[("WorkScore.Add / Multiply","workscore.go"),("ManaCost","mana.go"),("WorkScore methods","*.go")])
p("C18","Blocks commit within bounds and parents are disjoint",
 "A block passes validation only if its version and network are those of the protocol parameters it is validated for, the commitment (and any commitment input inside its transaction) lies between the minimum and maximum committable age and is not newer than the block's commitment, and its transaction is not from the future. Weak parents are disjoint from the other parents, and validation blocks announce a highest supported version that is at least the version of the block.",
 I,"all blocks, slots and committable-age settings",
 "The tests take a few slots for a single parameter set.",
 ["block.go"],[("syntacticallyValidate of block, basic and validation bodies","block.go")])
p("C19","Copies are equal to and independent of the original",
 "Cloning any output, unlock condition, feature, address, unlock, input, allotment, payload or transaction yields an object with equal contents, and changing the copy's fields, lists, maps or amounts afterwards never changes the original, because the copy shares no mutable part with it. Cloning never fails on a valid object.",
 I,"all objects and all subsequent modifications",
 "Tests clone only a few objects and never mutate the result.",
 ["output.go","output_basic.go","output_account.go","output_anchor.go","output_foundry.go","output_nft.go","output_delegation.go","unlock_cond.go","feat.go","address_multi.go","address_restricted.go","transaction.go","transaction_essence.go"],[("Clone methods","*.go")])
p("C20","Protocol version lookup follows the epoch schedule",
 "For every history of added protocol versions, the version in force for an epoch is the highest known version whose start epoch is not after it, re-adding a known version changes nothing, and the start epoch of a version is the one first registered. Lookups by slot agree with lookups by the epoch containing the slot.",
 ["histories","inputs"],"all sequences of version additions and all epochs",
 "The tests register three versions in order.",
 ["api_protocol_epoch_versions.go","api_epoch_based_provider.go"],[("ProtocolEpochVersions.Add / VersionForEpoch / EpochForVersion","api_protocol_epoch_versions.go")])
p("C21","Threshold addresses are well-formed and weighted correctly",
 "A multi address is accepted only with strictly ordered, unique component addresses of permitted kinds, every weight at least one, and a threshold between one and the cumulative weight; two multi addresses are equal exactly if every component address, every weight and the threshold agree. Component positions in a multi unlock correspond one to one to the addresses, and the weights of the parts that are unlocked must reach the threshold.",
 I,"all multi addresses and multi unlocks",
 "The tests contain a single example for each rule.",
 ["address_multi.go","api_common.go","vm/vm.go"],[("multiAddressValidatorFunc / AddressWeight order","api_common.go"),("MultiAddress.Equal","address_multi.go"),("unlockedAddressesSet.MultiUnlock","vm/vm.go")])
p("C22","The transaction builder accounts for mana exactly",
 "The mana the builder reports as available equals the stored plus the generated mana of its inputs, split exactly into the mana bound to accounts and free mana, and the free mana includes the rewards. What remains is that minus everything stored in outputs or allotted: an account's own mana pays first, free mana pays for the rest, and an over-spend or overflow is an error. Storing the remainder in an output or allotting it to an account adds exactly the remaining amount and changes nothing else.",
 I,"all builder states",
 "The tests build a few typical transactions.",
 ["builder/transaction_builder.go"],[("CalculateAvailableManaInputs / CalculateAvailableManaRemaining / Allot* / StoreRemaining*","builder/transaction_builder.go")])
p("C23","Binary and JSON encodings round-trip",
 "Decoding the encoding of any valid object yields an equal object in both the binary and the JSON form, and decoding arbitrary bytes either fails or yields an object that re-encodes to the same bytes.",
 I,"all objects and all byte strings",
 "Tests round-trip random samples of each type.",
 ["api_v3.go"],[("type registration and validators","api_v3.go")])
p("C24","Reported sizes account for every encoded part",
 "The size every object reports, which prices storage and work, is the exact sum of the widths of its parts in the binary encoding: type bytes, fixed-width fields, length prefixes and the contents of every list and nested object.",
 I,"all objects","Tests compare a few samples.",
 ["output.go","transaction.go","block.go","transaction_essence.go","unlock.go","unlock_cond.go","feat.go"],[("Size methods","*.go")])
p("C25","Providers and decay functions may be shared between goroutines",
 "Concurrent use of the shared protocol parameter, API provider and event objects never races and every reader sees a state that existed between two updates.",
 ["schedules"],"all interleavings of readers and writers",
 "Tests are sequential.",
 ["api_epoch_based_provider.go","api_v3_protocol_parameters.go"],[("RW mutexes and once-initialisation","api_epoch_based_provider.go")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
