From 7232b4f630d137f7fda72dbf1a3dd833b31ed934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 1/7] fix: MultiAddress.Clone panics for multi addresses that
 have addresses

---
 address_multi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address_multi.go b/address_multi.go
index 9a9a3d1..deb8ea3 100644
--- a/address_multi.go
+++ b/address_multi.go
@@ -61,7 +61,7 @@ type MultiAddress struct {
 
 func (addr *MultiAddress) Clone() Address {
 	cpy := &MultiAddress{
-		Addresses: make(AddressesWithWeight, 0, len(addr.Addresses)),
+		Addresses: make(AddressesWithWeight, len(addr.Addresses)),
 		Threshold: addr.Threshold,
 	}
 
-- 
2.43.0


From 7f016a38ae5fcb244ac5dd62fb0dd7fbdfa03a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 2/7] fix: identifier parsing reports the bytes it read, not
 the length of the input

---
 gen/identifier.tmpl       | 2 +-
 identifier.gen.go         | 2 +-
 identifier_account.gen.go | 2 +-
 identifier_anchor.gen.go  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gen/identifier.tmpl b/gen/identifier.tmpl
index 114670f..032bb83 100644
--- a/gen/identifier.tmpl
+++ b/gen/identifier.tmpl
@@ -69,7 +69,7 @@ func {{.Name}}FromBytes(bytes []byte) ({{.Name}}, int, error) {
 	}
 	copy({{.Receiver}}[:], bytes)
 
-	return {{.Receiver}}, len(bytes), nil
+	return {{.Receiver}}, {{.Name}}Length, nil
 }
 
 func ({{.Receiver}} {{.Name}}) Bytes() ([]byte, error) {
diff --git a/identifier.gen.go b/identifier.gen.go
index 9039988..1b75a01 100644
--- a/identifier.gen.go
+++ b/identifier.gen.go
@@ -69,7 +69,7 @@ func IdentifierFromBytes(bytes []byte) (Identifier, int, error) {
 	}
 	copy(i[:], bytes)
 
-	return i, len(bytes), nil
+	return i, IdentifierLength, nil
 }
 
 func (i Identifier) Bytes() ([]byte, error) {
diff --git a/identifier_account.gen.go b/identifier_account.gen.go
index 155f55d..0a6a783 100644
--- a/identifier_account.gen.go
+++ b/identifier_account.gen.go
@@ -69,7 +69,7 @@ func AccountIDFromBytes(bytes []byte) (AccountID, int, error) {
 	}
 	copy(a[:], bytes)
 
-	return a, len(bytes), nil
+	return a, AccountIDLength, nil
 }
 
 func (a AccountID) Bytes() ([]byte, error) {
diff --git a/identifier_anchor.gen.go b/identifier_anchor.gen.go
index 32f009d..3a56d75 100644
--- a/identifier_anchor.gen.go
+++ b/identifier_anchor.gen.go
@@ -69,7 +69,7 @@ func AnchorIDFromBytes(bytes []byte) (AnchorID, int, error) {
 	}
 	copy(a[:], bytes)
 
-	return a, len(bytes), nil
+	return a, AnchorIDLength, nil
 }
 
 func (a AnchorID) Bytes() ([]byte, error) {
-- 
2.43.0


From 32adf9c0aa16e2ee06bd7707582f2b4eeb294658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:29 +0000
Subject: [PATCH 3/7] fix: count the length prefix of a transaction's payload
 in its size

---
 transaction_essence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction_essence.go b/transaction_essence.go
index d8dbc80..657a552 100644
--- a/transaction_essence.go
+++ b/transaction_essence.go
@@ -69,7 +69,7 @@ func (u *TransactionEssence) Clone() *TransactionEssence {
 func (u *TransactionEssence) Size() int {
 	payloadSize := serializer.PayloadLengthByteSize
 	if u.Payload != nil {
-		payloadSize = u.Payload.Size()
+		payloadSize += u.Payload.Size()
 	}
 
 	// NetworkID
-- 
2.43.0


From 069bc160321ba15f10db5f91e6d221a10198725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:32 +0000
Subject: [PATCH 4/7] fix: committable age checks of blocks wrap around for
 slots close to the maximum

---
 block.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/block.go b/block.go
index b98835c..b389c78 100644
--- a/block.go
+++ b/block.go
@@ -313,12 +313,12 @@ func (b *Block) syntacticallyValidate() error {
 
 	// check that commitment is not too recent.
 	if commitmentSlot > genesisSlot && // Don't filter commitments to genesis based on being too recent.
-		blockSlot < commitmentSlot+minCommittableAge {
+		(blockSlot < commitmentSlot || blockSlot-commitmentSlot < minCommittableAge) {
 		return ierrors.WithMessagef(ErrCommitmentTooRecent, "block at slot %d committing to slot %d, min committable age %d", blockSlot, b.Header.SlotCommitmentID.Slot(), minCommittableAge)
 	}
 
 	// Check that commitment is not too old.
-	if blockSlot > commitmentSlot+maxCommittableAge {
+	if blockSlot > commitmentSlot && blockSlot-commitmentSlot > maxCommittableAge {
 		return ierrors.WithMessagef(ErrCommitmentTooOld, "block at slot %d committing to slot %d, max committable age %d", blockSlot, b.Header.SlotCommitmentID.Slot(), maxCommittableAge)
 	}
 
@@ -427,11 +427,11 @@ func (b *BasicBlockBody) syntacticallyValidate(block *Block) error {
 			cInputSlot := cInput.CommitmentID.Slot()
 			// check that commitment input is not too recent.
 			if cInputSlot > 0 && // Don't filter commitments to genesis based on being too recent.
-				blockSlot < cInputSlot+minCommittableAge { // filter commitments to future slots.
+				(blockSlot < cInputSlot || blockSlot-cInputSlot < minCommittableAge) { // filter commitments to future slots.
 				return ierrors.WithMessagef(ErrCommitmentInputTooRecent, "block at slot %d with commitment input to slot %d, min committable age %d", blockSlot, cInput.CommitmentID.Slot(), minCommittableAge)
 			}
 			// Check that commitment input is not too old.
-			if blockSlot > cInputSlot+maxCommittableAge {
+			if blockSlot > cInputSlot && blockSlot-cInputSlot > maxCommittableAge {
 				return ierrors.WithMessagef(ErrCommitmentInputTooOld, "block at slot %d with commitment input to slot %d, max committable age %d", blockSlot, cInput.CommitmentID.Slot(), maxCommittableAge)
 			}
 
-- 
2.43.0


From d12acdef6adc8a09cb97991e1d02648a92c97996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:39 +0000
Subject: [PATCH 5/7] fix: the clone of a delegation output shares the
 validator address with the original

---
 output_delegation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/output_delegation.go b/output_delegation.go
index 3d85146..952f6d8 100644
--- a/output_delegation.go
+++ b/output_delegation.go
@@ -112,11 +112,14 @@ type DelegationOutput struct {
 }
 
 func (d *DelegationOutput) Clone() Output {
+	//nolint:forcetypeassert // we can safely assume that this is an AccountAddress
+	validatorAddress := d.ValidatorAddress.Clone().(*AccountAddress)
+
 	return &DelegationOutput{
 		Amount:           d.Amount,
 		DelegatedAmount:  d.DelegatedAmount,
 		DelegationID:     d.DelegationID,
-		ValidatorAddress: d.ValidatorAddress,
+		ValidatorAddress: validatorAddress,
 		StartEpoch:       d.StartEpoch,
 		EndEpoch:         d.EndEpoch,
 		UnlockConditions: d.UnlockConditions.Clone(),
-- 
2.43.0


From 39d5758f74313edf26054db87c069ab193142380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:43 +0000
Subject: [PATCH 6/7] fix: the clone of a block issuer feature shares its keys
 with the original

---
 feat_blockissuer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feat_blockissuer.go b/feat_blockissuer.go
index 400d315..ad0f898 100644
--- a/feat_blockissuer.go
+++ b/feat_blockissuer.go
@@ -40,7 +40,7 @@ type BlockIssuerFeature struct {
 func (s *BlockIssuerFeature) Clone() Feature {
 	return &BlockIssuerFeature{
 		ExpirySlot:      s.ExpirySlot,
-		BlockIssuerKeys: s.BlockIssuerKeys,
+		BlockIssuerKeys: s.BlockIssuerKeys.Clone(),
 	}
 }
 
-- 
2.43.0


From eb732e1ca7b18fef30ff4b7f55726bae94711886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:59 +0000
Subject: [PATCH 7/7] fix: bech32 decoding accepts the Kelvin sign in place of
 the letter K

---
 bech32/bech32.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bech32/bech32.go b/bech32/bech32.go
index c6faca6..183947b 100644
--- a/bech32/bech32.go
+++ b/bech32/bech32.go
@@ -3,6 +3,7 @@ package bech32
 
 import (
 	"strings"
+	"unicode"
 
 	"github.com/iotaledger/hive.go/ierrors"
 	"github.com/iotaledger/iota.go/v4/bech32/internal/base32"
@@ -87,6 +88,13 @@ func Decode(s string) (string, []byte, error) {
 		return "", nil, err
 	}
 
+	// validate that the data part is ASCII, as some non-ASCII characters have an ASCII character as their lower case
+	for i := hrpLen + 1; i < len(s); i++ {
+		if s[i] > unicode.MaxASCII {
+			return "", nil, &SyntaxError{ierrors.WithMessage(ErrInvalidCharacter, "non US-ASCII character in data part"), i}
+		}
+	}
+
 	// convert everything to lower
 	s = strings.ToLower(s)
 	hrp := s[:hrpLen]
-- 
2.43.0

