From dde30c7a457cffa5d167c35d97759ee63444dae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 01/57] fix: digest multi bytes even when their total length is
 64 bytes

---
 domain/hash/adapter.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/domain/hash/adapter.go b/domain/hash/adapter.go
index e6c0cc1..bb3f5e7 100644
--- a/domain/hash/adapter.go
+++ b/domain/hash/adapter.go
@@ -16,13 +16,7 @@ func createAdapter() Adapter {
 // FromBytes converts []byte to an Hash
 func (app *adapter) FromBytes(input []byte) (*Hash, error) {
 	if len(input) != 64 {
-		h := sha512.New()
-		_, err := h.Write(input)
-		if err != nil {
-			return nil, err
-		}
-
-		input = h.Sum(nil)
+		return app.digest(input)
 	}
 
 	out := Hash{}
@@ -40,7 +34,8 @@ func (app *adapter) FromMultiBytes(input [][]byte) (*Hash, error) {
 		merged = append(merged, oneRow...)
 	}
 
-	return app.FromBytes(merged)
+	// a 64 bytes total is data like any other, it must not be used verbatim as an hash:
+	return app.digest(merged)
 }
 
 // FromString converts a string to an Hash
@@ -57,3 +52,15 @@ func (app *adapter) FromString(input string) (*Hash, error) {
 
 	return hash, nil
 }
+
+func (app *adapter) digest(input []byte) (*Hash, error) {
+	h := sha512.New()
+	_, err := h.Write(input)
+	if err != nil {
+		return nil, err
+	}
+
+	out := Hash{}
+	copy(out[:], h.Sum(nil))
+	return &out, nil
+}
-- 
2.43.0


From d7e16f2b3f784f80fd3101cc77d88d0c766381c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 02/57] fix: hashtree panics on empty blocks, alters its input
 and mis-orders repeated, empty or 64 bytes blocks

---
 domain/hashtree/block.go    | 23 ++++++++++++++++++-----
 domain/hashtree/builder.go  |  4 ++++
 domain/hashtree/hashtree.go | 12 ++++++------
 3 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/domain/hashtree/block.go b/domain/hashtree/block.go
index 0d7bde0..c19a357 100644
--- a/domain/hashtree/block.go
+++ b/domain/hashtree/block.go
@@ -13,13 +13,9 @@ type block struct {
 
 func createBlockFromData(data [][]byte) (Block, error) {
 
-	if len(data) <= 1 {
-		data = append(data, []byte(""))
-	}
-
 	hashes := []hash.Hash{}
 	for _, oneData := range data {
-		oneHash, err := hash.NewAdapter().FromBytes(oneData)
+		oneHash, err := hashData(oneData)
 		if err != nil {
 			return nil, err
 		}
@@ -27,6 +23,16 @@ func createBlockFromData(data [][]byte) (Block, error) {
 		hashes = append(hashes, *oneHash)
 	}
 
+	// a tree contains at least 2 leaves, filled without touching the caller's slice:
+	for len(hashes) < 2 {
+		filling, err := hashData(nil)
+		if err != nil {
+			return nil, err
+		}
+
+		hashes = append(hashes, *filling)
+	}
+
 	blk := block{
 		list: hashes,
 	}
@@ -113,3 +119,10 @@ func (obj *block) UnmarshalJSON(data []byte) error {
 	obj.list = hashes
 	return nil
 }
+
+// hashData digests a data block, even when its length is the one of an hash
+func hashData(data []byte) (*hash.Hash, error) {
+	return hash.NewAdapter().FromMultiBytes([][]byte{
+		data,
+	})
+}
diff --git a/domain/hashtree/builder.go b/domain/hashtree/builder.go
index ab7d450..4cff5d1 100644
--- a/domain/hashtree/builder.go
+++ b/domain/hashtree/builder.go
@@ -31,6 +31,10 @@ func (app *builder) WithBlocks(blocks [][]byte) Builder {
 
 // Now builds a new HashTree instance
 func (app *builder) Now() (HashTree, error) {
+	if app.blocks != nil && len(app.blocks) <= 0 {
+		app.blocks = nil
+	}
+
 	if app.blocks != nil {
 		return createHashTreeFromBlocks(app.blocks)
 	}
diff --git a/domain/hashtree/hashtree.go b/domain/hashtree/hashtree.go
index e47aede..0b17241 100644
--- a/domain/hashtree/hashtree.go
+++ b/domain/hashtree/hashtree.go
@@ -61,24 +61,24 @@ func (obj *hashtree) Compact() Compact {
 
 // Order orders data that matches the leafs of the HashTree
 func (obj *hashtree) Order(data [][]byte) ([][]byte, error) {
-	hashAdapter := hash.NewAdapter()
-	hashed := map[string][]byte{}
+	hashed := map[string][][]byte{}
 	for _, oneData := range data {
-		hsh, err := hashAdapter.FromBytes(oneData)
+		hsh, err := hashData(oneData)
 		if err != nil {
 			return nil, err
 		}
 
 		hashAsString := hsh.String()
-		hashed[hashAsString] = oneData
+		hashed[hashAsString] = append(hashed[hashAsString], oneData)
 	}
 
 	out := [][]byte{}
 	leaves := obj.parentLeaf.BlockLeaves().Leaves()
 	for _, oneLeaf := range leaves {
 		leafHashAsString := oneLeaf.Head().String()
-		if oneData, ok := hashed[leafHashAsString]; ok {
-			out = append(out, oneData)
+		if list := hashed[leafHashAsString]; len(list) > 0 {
+			out = append(out, list[0])
+			hashed[leafHashAsString] = list[1:]
 			continue
 		}
 
-- 
2.43.0


From 6400000985ea003c0c52e30d9f295b368b83fc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 03/57] fix: delimit the amount and the nonce in the hash of
 genesis units and secrets

---
 domain/genesis/sdk.go                         | 3 +++
 domain/genesis/unitcontent_builder.go         | 3 +++
 domain/transactions/secrets/sdk.go            | 3 +++
 domain/transactions/secrets/secret_builder.go | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/domain/genesis/sdk.go b/domain/genesis/sdk.go
index aec270e..162729c 100644
--- a/domain/genesis/sdk.go
+++ b/domain/genesis/sdk.go
@@ -7,6 +7,9 @@ import (
 	"github.com/steve-care-software/steve/domain/rings"
 )
 
+// hashDelimiter separates the variable-length elements of an hash
+const hashDelimiter = "|"
+
 // NewBuilder creates a new builder
 func NewBuilder() Builder {
 	hashAdapter := hash.NewAdapter()
diff --git a/domain/genesis/unitcontent_builder.go b/domain/genesis/unitcontent_builder.go
index 94f38ae..c11e8a8 100644
--- a/domain/genesis/unitcontent_builder.go
+++ b/domain/genesis/unitcontent_builder.go
@@ -85,8 +85,11 @@ func (app *unitContentBuilder) Now() (UnitContent, error) {
 
 	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
 		[]byte(strconv.Itoa(int(app.amount))),
+		[]byte(hashDelimiter),
 		[]byte(app.nonce),
+		[]byte(hashDelimiter),
 		[]byte(strconv.Itoa(int(app.activatedOn.UTC().UnixNano()))),
+		[]byte(hashDelimiter),
 		[]byte(strconv.Itoa(int(app.createdOn.UTC().UnixNano()))),
 	})
 
diff --git a/domain/transactions/secrets/sdk.go b/domain/transactions/secrets/sdk.go
index 230c9b2..0eef5b0 100644
--- a/domain/transactions/secrets/sdk.go
+++ b/domain/transactions/secrets/sdk.go
@@ -5,6 +5,9 @@ import (
 	"github.com/steve-care-software/steve/domain/transactions"
 )
 
+// hashDelimiter separates the variable-length elements of an hash
+const hashDelimiter = "|"
+
 // NewBuilder creates a new builder instance
 func NewBuilder() Builder {
 	hashAdapter := hash.NewAdapter()
diff --git a/domain/transactions/secrets/secret_builder.go b/domain/transactions/secrets/secret_builder.go
index 2066e88..151de57 100644
--- a/domain/transactions/secrets/secret_builder.go
+++ b/domain/transactions/secrets/secret_builder.go
@@ -84,6 +84,9 @@ func (app *secretBuilder) Now() (Secret, error) {
 	data := [][]byte{
 		app.public.Hash().Bytes(),
 		[]byte(strconv.Itoa(int(app.amount))),
+		[]byte(hashDelimiter),
+		[]byte(strconv.Itoa(len(app.nonce))),
+		[]byte(hashDelimiter),
 		[]byte(app.nonce),
 	}
 
-- 
2.43.0


From cb0dd2a7c7afa40f097240663f2e957ecf721d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 04/57] fix: hash the content of receipts and private
 transactions

---
 domain/receipts/builder.go                      | 6 +++++-
 domain/transactions/privates/private_builder.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/domain/receipts/builder.go b/domain/receipts/builder.go
index 75ce327..2128fcc 100644
--- a/domain/receipts/builder.go
+++ b/domain/receipts/builder.go
@@ -53,7 +53,11 @@ func (app *builder) Now() (Receipt, error) {
 		return nil, errors.New("the signature is mandatory in order to build a Receipt instance")
 	}
 
-	hash, err := app.hashAdapter.FromMultiBytes([][]byte{})
+	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
+		app.secret.Hash().Bytes(),
+		[]byte(app.sig.String()),
+	})
+
 	if err != nil {
 		return nil, err
 	}
diff --git a/domain/transactions/privates/private_builder.go b/domain/transactions/privates/private_builder.go
index 910ce8b..d296a8d 100644
--- a/domain/transactions/privates/private_builder.go
+++ b/domain/transactions/privates/private_builder.go
@@ -53,7 +53,11 @@ func (app *privateBuilder) Now() (Private, error) {
 		return nil, errors.New("the receipt is mandatory in order to build a Private instance")
 	}
 
-	hash, err := app.hashAdapter.FromMultiBytes([][]byte{})
+	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
+		app.receipt.Hash().Bytes(),
+		[]byte(app.pk.String()),
+	})
+
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d9092091a35078df81a8c8edbb4cdd79cc06a766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 05/57] fix: reject ring signatures without ring or whose
 scalars do not match their ring

---
 .../cryptography/keys/signature/ringsignature_adapter.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/domain/cryptography/keys/signature/ringsignature_adapter.go b/domain/cryptography/keys/signature/ringsignature_adapter.go
index bf3de64..b99dd7b 100644
--- a/domain/cryptography/keys/signature/ringsignature_adapter.go
+++ b/domain/cryptography/keys/signature/ringsignature_adapter.go
@@ -66,6 +66,15 @@ func (app *ringSignatureAdapter) ToSignature(sig string) (RingSignature, error)
 		s = append(s, scalar)
 	}
 
+	if len(ring) <= 0 {
+		return nil, errors.New("the ring signature was expected to contain at least 1 PublicKey in its ring")
+	}
+
+	if len(ring) != len(s) {
+		str := fmt.Sprintf("the ring signature was expected to contain as many scalars (%d) as PublicKeys (%d)", len(s), len(ring))
+		return nil, errors.New(str)
+	}
+
 	e, err := fromStringToScalar(splitted[2])
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 1608df95a22081220be99db1ca48e090522d3103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 06/57] fix: draw the nonces of ring signatures at random,
 shared nonces disclose the private key

---
 domain/cryptography/keys/signature/privatekey.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/domain/cryptography/keys/signature/privatekey.go b/domain/cryptography/keys/signature/privatekey.go
index 1546d25..edc520d 100644
--- a/domain/cryptography/keys/signature/privatekey.go
+++ b/domain/cryptography/keys/signature/privatekey.go
@@ -2,7 +2,6 @@ package signature
 
 import (
 	"errors"
-	"fmt"
 
 	kyber "go.dedis.ch/kyber/v3"
 )
@@ -45,8 +44,9 @@ func (app *privateKey) RingSign(msg string, ringPubKeys []PublicKey) (RingSignat
 		return nil, errors.New("the signer PublicKey is not in the ring")
 	}
 
-	// generate k:
-	k := genK(app.x, msg)
+	// generate k, it must be different each time we sign since a k shared by 2 signatures discloses x:
+	rnd := curve.RandomStream()
+	k := curve.Scalar().Pick(rnd)
 
 	// random base:
 	g := curve.Point().Base()
@@ -65,7 +65,7 @@ func (app *privateKey) RingSign(msg string, ringPubKeys []PublicKey) (RingSignat
 	// loop:
 	for i := beginIndex; i != signerIndex; i = (i + 1) % r {
 		// si = random value
-		ss[i] = genK(app.x, fmt.Sprintf("%s%d", msg, i))
+		ss[i] = curve.Scalar().Pick(rnd)
 
 		//eiPlus1ModR = H(m || si * G + ei * Pi)
 		sig := curve.Point().Mul(ss[i], g)
-- 
2.43.0


From 56e753c43794aee72926a455e5b62271c981afb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 07/57] fix: reject negative ports in peer strings

---
 domain/peers/peer_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/peers/peer_builder.go b/domain/peers/peer_builder.go
index 78b1c4c..4663808 100644
--- a/domain/peers/peer_builder.go
+++ b/domain/peers/peer_builder.go
@@ -61,7 +61,7 @@ func (app *peerBuilder) Now() (Peer, error) {
 			return nil, errors.New(str)
 		}
 
-		portInt, err := strconv.Atoi(sections[1])
+		portInt, err := strconv.ParseUint(sections[1], 10, strconv.IntSize)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From aa618fd885bf6bd131a8e434b2ba4e0367f8da7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 08/57] fix: the encryption key adapter shares its builder
 between calls

---
 domain/cryptography/keys/encryption/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/cryptography/keys/encryption/adapter.go b/domain/cryptography/keys/encryption/adapter.go
index f732434..e724f78 100644
--- a/domain/cryptography/keys/encryption/adapter.go
+++ b/domain/cryptography/keys/encryption/adapter.go
@@ -24,7 +24,7 @@ func (app *adapter) FromBytes(bytes []byte) (PrivateKey, error) {
 		return nil, err
 	}
 
-	return app.builder.WithPK(*pk).Now()
+	return app.builder.Create().WithPK(*pk).Now()
 }
 
 // FromEncoded converts an encoded string to PrivateKey
-- 
2.43.0


From c0fd60cb56b18bfe3194055e1ab375629749ae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 09/57] fix: expose the genesis units builder, a genesis cannot
 be built without it

---
 domain/genesis/sdk.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/domain/genesis/sdk.go b/domain/genesis/sdk.go
index 162729c..cbc7f77 100644
--- a/domain/genesis/sdk.go
+++ b/domain/genesis/sdk.go
@@ -16,6 +16,12 @@ func NewBuilder() Builder {
 	return createBuilder(hashAdapter)
 }
 
+// NewUnitsBuilder creates a new units builder
+func NewUnitsBuilder() UnitsBuilder {
+	hashAdapter := hash.NewAdapter()
+	return createUnitsBuilder(hashAdapter)
+}
+
 // NewUnitBuilder creates a new unit builder
 func NewUnitBuilder() UnitBuilder {
 	hashAdapter := hash.NewAdapter()
-- 
2.43.0


From f4f7042a4b2c7d87f85c39be8cd4d68201dfaea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 10/57] fix: reject the scalars that are not in their canonical
 form

---
 domain/cryptography/keys/signature/helper.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/domain/cryptography/keys/signature/helper.go b/domain/cryptography/keys/signature/helper.go
index 8de7896..d57c2c6 100644
--- a/domain/cryptography/keys/signature/helper.go
+++ b/domain/cryptography/keys/signature/helper.go
@@ -3,6 +3,7 @@ package signature
 import (
 	"bytes"
 	"encoding/hex"
+	"errors"
 
 	kyber "go.dedis.ch/kyber/v3"
 )
@@ -32,6 +33,15 @@ func fromStringToScalar(str string) (kyber.Scalar, error) {
 		return nil, err
 	}
 
+	canonical, err := x.MarshalBinary()
+	if err != nil {
+		return nil, err
+	}
+
+	if !bytes.Equal(canonical, decoded) {
+		return nil, errors.New("the scalar is not in its canonical form")
+	}
+
 	return x, nil
 }
 
-- 
2.43.0


From 25bf2a2b456e624be4bbd0b965c8794a9cc9ad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 11/57] fix: reject the points outside of the group of the
 curve, signatures holding them verified at random

---
 domain/cryptography/keys/signature/helper.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/domain/cryptography/keys/signature/helper.go b/domain/cryptography/keys/signature/helper.go
index d57c2c6..a881f76 100644
--- a/domain/cryptography/keys/signature/helper.go
+++ b/domain/cryptography/keys/signature/helper.go
@@ -57,5 +57,12 @@ func fromStringToPoint(str string) (kyber.Point, error) {
 		return nil, err
 	}
 
+	// the verifications are only exact on points of the group generated by the base:
+	lastScalar := curve.Scalar().Neg(curve.Scalar().One())
+	multiple := curve.Point().Add(curve.Point().Mul(lastScalar, p), p)
+	if !multiple.Equal(curve.Point().Null()) {
+		return nil, errors.New("the point is not in the group of the curve")
+	}
+
 	return p, nil
 }
-- 
2.43.0


From c4b8b29ac2f32f802d9dae0aebcc279faf43c4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 12/57] fix: roots share neither their sub tokens of equal text
 nor the state of their adapter between calls

---
 domain/languages/lexers/roots/adapter.go | 26 ++++++++----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/domain/languages/lexers/roots/adapter.go b/domain/languages/lexers/roots/adapter.go
index 8482f37..189de8e 100644
--- a/domain/languages/lexers/roots/adapter.go
+++ b/domain/languages/lexers/roots/adapter.go
@@ -10,7 +10,6 @@ type adapter struct {
 	nodeBuilder       NodeBuilder
 	containersBuilder ContainersBuilder
 	containerBuilder  ContainerBuilder
-	tokenRoots        map[string]Root
 }
 
 func createAdapter(
@@ -26,23 +25,17 @@ func createAdapter(
 		nodeBuilder:       nodeBuilder,
 		containersBuilder: containersBuilder,
 		containerBuilder:  containerBuilder,
-		tokenRoots:        nil,
 	}
 
 	return &out
 }
 
-func (app *adapter) init() {
-	app.tokenRoots = map[string]Root{}
-}
-
 // ToRoot converts a root token to an instance
 func (app *adapter) ToRoot(token asts.Token) (Root, error) {
-	app.init()
-	return app.toRoot(token)
+	return app.toRoot(token, map[asts.Token]Root{})
 }
 
-func (app *adapter) toRoot(token asts.Token) (Root, error) {
+func (app *adapter) toRoot(token asts.Token, tokenRoots map[asts.Token]Root) (Root, error) {
 	lineMatch := token.Match()
 	if !lineMatch.HasMatches() {
 		return nil, nil
@@ -57,7 +50,7 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 
 		tokens := oneMatch.Token().Matches()
 		for _, oneToken := range tokens {
-			_, err := app.toRoot(oneToken)
+			_, err := app.toRootWithCache(oneToken, tokenRoots)
 			if err != nil {
 				return nil, err
 			}
@@ -72,7 +65,7 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 			tokenName := tokenMatch.Token()
 			matchTokens := tokenMatch.Matches()
 			for _, oneMatchToken := range matchTokens {
-				root, err := app.toRootWithCache(oneMatchToken)
+				root, err := app.toRootWithCache(oneMatchToken, tokenRoots)
 				if err != nil {
 					return nil, err
 				}
@@ -102,7 +95,7 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 
 	nodesMap := map[string]Node{}
 	for name, containerList := range containersMap {
-		containers, err := app.containersBuilder.WithList(containerList).Now()
+		containers, err := app.containersBuilder.Create().WithList(containerList).Now()
 		if err != nil {
 			return nil, err
 		}
@@ -127,15 +120,14 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 		return nil, err
 	}
 
-	app.tokenRoots[content] = ins
+	tokenRoots[token] = ins
 	return ins, nil
 }
 
-func (app *adapter) toRootWithCache(token asts.Token) (Root, error) {
-	content := token.Discovery()
-	if ref, ok := app.tokenRoots[content]; ok {
+func (app *adapter) toRootWithCache(token asts.Token, tokenRoots map[asts.Token]Root) (Root, error) {
+	if ref, ok := tokenRoots[token]; ok {
 		return ref, nil
 	}
 
-	return app.toRoot(token)
+	return app.toRoot(token, tokenRoots)
 }
-- 
2.43.0


From 4d3672a5636b97d8356e14eb01be43618530079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 13/57] fix: a lexer keeps no replacement of its previous calls

---
 applications/languages/lexers/application.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/applications/languages/lexers/application.go b/applications/languages/lexers/application.go
index 76a54b8..a6d6d5a 100644
--- a/applications/languages/lexers/application.go
+++ b/applications/languages/lexers/application.go
@@ -369,6 +369,13 @@ func (app *application) fetchReplacementPaths(
 		return replacementPaths, nil
 	}
 
+	// work on a copy, the received map is shared between the calls:
+	updatedPaths := map[string]asts_paths.Path{}
+	for keyname, path := range replacementPaths {
+		updatedPaths[keyname] = path
+	}
+
+	replacementPaths = updatedPaths
 	repList := references.Replacements().All()
 	for _, oneReplacement := range repList {
 		localTokenName := oneReplacement.LocalToken()
-- 
2.43.0


From 0dcf1a39b299f59d5daf2066f4a79a5f40a17309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 14/57] fix: refuse the negative amounts in cardinalities

---
 .../lexers/cardinality/specific_adapter.go    | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/domain/languages/lexers/cardinality/specific_adapter.go b/domain/languages/lexers/cardinality/specific_adapter.go
index 05e6421..c2db61f 100644
--- a/domain/languages/lexers/cardinality/specific_adapter.go
+++ b/domain/languages/lexers/cardinality/specific_adapter.go
@@ -1,6 +1,7 @@
 package cardinality
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 	"strings"
@@ -49,29 +50,29 @@ func (app *specificAdapter) ToSpecific(content string) (Specific, error) {
 	builder := app.specificBuilder.Create()
 	sections := strings.Split(trimmedContent, app.rangeSeparator)
 	if len(sections) == 1 {
-		amount, err := strconv.Atoi(sections[0])
+		amount, err := app.toAmount(sections[0])
 		if err != nil {
 			return nil, err
 		}
 
-		builder.WithAmount(uint(amount))
+		builder.WithAmount(amount)
 	}
 
 	if len(sections) == 2 {
-		min, err := strconv.Atoi(sections[0])
+		min, err := app.toAmount(sections[0])
 		if err != nil {
 			return nil, err
 		}
 
-		rangeBuilder := app.rangeBuilder.Create().WithMinimum(uint(min))
+		rangeBuilder := app.rangeBuilder.Create().WithMinimum(min)
 		trimmedSection := strings.TrimSpace(sections[1])
 		if trimmedSection != "" {
-			max, err := strconv.Atoi(trimmedSection)
+			max, err := app.toAmount(trimmedSection)
 			if err != nil {
 				return nil, err
 			}
 
-			rangeBuilder.WithMaximum(uint(max))
+			rangeBuilder.WithMaximum(max)
 		}
 
 		rnge, err := rangeBuilder.Now()
@@ -101,3 +102,17 @@ func (app *specificAdapter) ToPatternString(specific Specific) (string, error) {
 
 	return fmt.Sprintf("%s%d%s%s", app.prefix, min, app.rangeSeparator, app.suffix), nil
 }
+
+func (app *specificAdapter) toAmount(content string) (uint, error) {
+	amount, err := strconv.Atoi(content)
+	if err != nil {
+		return 0, err
+	}
+
+	if amount < 0 {
+		str := fmt.Sprintf("the amount (%d) of a cardinality cannot be negative", amount)
+		return 0, errors.New(str)
+	}
+
+	return uint(amount), nil
+}
-- 
2.43.0


From 1d02011bb8e5fcd0be0e2513792def31d9402f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 15/57] fix: refuse the includes of a single path instead of
 panicking

---
 domain/languages/lexers/references/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/references/adapter.go b/domain/languages/lexers/references/adapter.go
index b7c9417..18f03c1 100644
--- a/domain/languages/lexers/references/adapter.go
+++ b/domain/languages/lexers/references/adapter.go
@@ -108,7 +108,7 @@ func (app *adapter) includes(content string) (map[string]links.Include, error) {
 		pathStrings := strings.Split(oneMatch[2], app.pathSeparator)
 		amount := len(pathStrings)
 		name := oneMatch[1]
-		if amount > 3 {
+		if amount < 2 || amount > 3 {
 			str := fmt.Sprintf("the include (name: %s) must contain {2,3} (rules, tokens, channels (optional)) paths, %d paths provided", name, amount)
 			return nil, errors.New(str)
 		}
-- 
2.43.0


From 77ee71fa2e853fca2fb1ec06bc351227eeaaba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 16/57] fix: the remaining content of a group match starts
 after the match

---
 domain/languages/lexers/containers/patterns/adapter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index 4058980..b00639c 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -131,8 +131,9 @@ func (app *adapter) FromGroupToResult(group Group, content string) (Result, erro
 		}
 
 		builder := app.resultBuilder.Create().WithDiscoveries(discoveries).WithInput(content)
-		if matchedAmount < uint(len(content)) {
-			builder.WithRemaining(content[matchedAmount:])
+		end := i + int(matchedAmount)
+		if end < len(content) {
+			builder.WithRemaining(content[end:])
 		}
 
 		ins, err := builder.Now()
-- 
2.43.0


From 6cae640d925970774a6df88c426c0ba6deafc509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 17/57] fix: refuse the rules without brackets nor constant
 instead of panicking

---
 domain/languages/lexers/containers/rules/adapter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domain/languages/lexers/containers/rules/adapter.go b/domain/languages/lexers/containers/rules/adapter.go
index a270047..d55e0a2 100644
--- a/domain/languages/lexers/containers/rules/adapter.go
+++ b/domain/languages/lexers/containers/rules/adapter.go
@@ -182,6 +182,11 @@ func (app *adapter) pattern(ruleName string, content string, ptrns patterns.Patt
 
 	pattern := regexp.MustCompile(patternStr)
 	matches := pattern.FindStringSubmatch(content)
+	if matches == nil {
+		str := fmt.Sprintf("the rule (name: %s) was expected to contain a pattern enclosed in brackets, content: %s", ruleName, content)
+		return nil, errors.New(str)
+	}
+
 	cardinalityContent := strings.Replace(content, matches[0], "", 1)
 	cardinality, err := app.cardinalityAdapter.ToCardinality(cardinalityContent)
 	if err != nil {
-- 
2.43.0


From a85f8cdd13ce896df21596e87e4264ecae98cc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 18/57] fix: scanning nodes gives the same element on every
 call

---
 domain/languages/lexers/roots/nodes.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/domain/languages/lexers/roots/nodes.go b/domain/languages/lexers/roots/nodes.go
index 3c89ec2..5757795 100644
--- a/domain/languages/lexers/roots/nodes.go
+++ b/domain/languages/lexers/roots/nodes.go
@@ -3,6 +3,7 @@ package roots
 import (
 	"errors"
 	"fmt"
+	"sort"
 )
 
 type nodes struct {
@@ -41,7 +42,20 @@ func (obj *nodes) Fetch(name string) (Node, error) {
 
 // Scan scans the node
 func (obj *nodes) Scan(name string) (Root, Node, Container, string, error) {
-	for _, node := range obj.list {
+	// the direct nodes have precedence over the nested ones:
+	if node, ok := obj.list[name]; ok {
+		return nil, node, nil, "", nil
+	}
+
+	// the order of the map is random, so scan by order of name:
+	names := []string{}
+	for nodeName := range obj.list {
+		names = append(names, nodeName)
+	}
+
+	sort.Strings(names)
+	for _, nodeName := range names {
+		node := obj.list[nodeName]
 		root, subNode, container, content, err := node.Scan(name)
 		if err != nil {
 			continue
-- 
2.43.0


From a8b7617297cd44b97bbd72c8b08a27f642c801df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 19/57] fix: a token whose must block is invalid is invalid,
 even when its not block does not match

---
 domain/languages/lexers/asts/tokens/tokencontent.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/tokencontent.go b/domain/languages/lexers/asts/tokens/tokencontent.go
index 509136e..025dd92 100644
--- a/domain/languages/lexers/asts/tokens/tokencontent.go
+++ b/domain/languages/lexers/asts/tokens/tokencontent.go
@@ -32,8 +32,8 @@ func createTokenContentInternally(
 
 // IsValid returns true if the token is valid, false otherwise
 func (obj *tokenContent) IsValid() bool {
-	if obj.HasNot() {
-		return !obj.Not().Matches().IsValid()
+	if obj.HasNot() && obj.Not().Matches().IsValid() {
+		return false
 	}
 
 	return obj.must.Matches().IsValid()
-- 
2.43.0


From 5f788f47c66932b0fd7b463b67f25e643e2dedcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 20/57] fix: the mandatory elements after an absent optional
 element are mandatory at the end of the script too

---
 domain/languages/lexers/asts/tokens/adapter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 0def7c4..d7a88a8 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -332,6 +332,11 @@ func (app *adapter) lineToMatches(line paths.Line, dependencies paths.Dependenci
 		}
 
 		if match == nil {
+			// the script ended and the element is optional, so the next elements must still be verified:
+			if remainingScript == "" {
+				continue
+			}
+
 			break
 		}
 
-- 
2.43.0


From 32ac7551e6560a48ae972c5db28d356bf6dd869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 21/57] fix: the repetition of a constant stops at the first
 one that does not follow the previous one

---
 domain/languages/lexers/asts/tokens/adapter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index d7a88a8..ba6dbdc 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -752,6 +752,11 @@ func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAre
 			break
 		}
 
+		// only the first match can be preceded by a prefix:
+		if len(list) > 0 && res.Matches().List()[0].Discoveries().Index() > 0 {
+			break
+		}
+
 		list = append(list, res)
 		content := res.Content()
 
-- 
2.43.0


From 3c4848fc5821745314763a7a8873177572b1ab9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 22/57] fix: a partially matched pattern is no match, the empty
 reversed series are

---
 domain/languages/lexers/asts/results/adapter.go        | 5 +++++
 domain/languages/lexers/containers/patterns/adapter.go | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/results/adapter.go b/domain/languages/lexers/asts/results/adapter.go
index bbcf8b7..6d27e80 100644
--- a/domain/languages/lexers/asts/results/adapter.go
+++ b/domain/languages/lexers/asts/results/adapter.go
@@ -75,6 +75,11 @@ func (app *adapter) ToResult(input rules.Rule, script string) (Result, error) {
 				break
 			}
 
+			// the pattern is only partially matched:
+			if result.HasNext() {
+				break
+			}
+
 			list = append(list, result)
 			amount := result.Discoveries().Amount()
 			remaining = remaining[amount:]
diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index b00639c..0bcc104 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -312,7 +312,12 @@ func (app *adapter) matchReversedSerie(serie Serie, content string, index uint)
 	}
 
 	if amount <= 0 {
-		return false, nil, nil, "", nil
+		if content == "" {
+			return false, nil, groups[0], "", nil
+		}
+
+		// there is nothing before the group, so there is nothing to discover:
+		return true, nil, groups[0], content, nil
 	}
 
 	container, err := app.containerBuilder.Create().WithReverse(serie).Now()
-- 
2.43.0


From 49fe6cc9612a46f7a5c7fb9958bc6dd40808e577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 23/57] fix: a reversed serie stops at the serie, not at its
 first group

---
 .../lexers/containers/patterns/adapter.go     | 40 ++++++++-----------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index 0bcc104..fe7c514 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -104,7 +104,7 @@ func (app *adapter) FromGroupToResult(group Group, content string) (Result, erro
 	amount := len(content)
 	for i := 0; i < amount; i++ {
 		subContent := content[i:]
-		matchedAmount, err := app.matchesGroup(group, subContent, false)
+		matchedAmount, err := app.matchesGroup(group, subContent)
 		if err != nil {
 			return nil, err
 		}
@@ -277,7 +277,7 @@ func (app *adapter) matchSerie(serie Serie, content string, index uint) (bool, [
 			return false, matchedDiscoveriesList, oneGroup, "", nil
 		}
 
-		amount, err := app.matchesGroup(oneGroup, remaining, false)
+		amount, err := app.matchesGroup(oneGroup, remaining)
 		if err != nil {
 			return false, nil, nil, "", err
 		}
@@ -306,7 +306,7 @@ func (app *adapter) matchSerie(serie Serie, content string, index uint) (bool, [
 
 func (app *adapter) matchReversedSerie(serie Serie, content string, index uint) (bool, []Discovery, Group, string, error) {
 	groups := serie.Content().List()
-	amount, err := app.matchesGroup(groups[0], content, true)
+	amount, err := app.amountBeforeSerie(serie, content)
 	if err != nil {
 		return false, nil, nil, "", err
 	}
@@ -336,32 +336,24 @@ func (app *adapter) matchReversedSerie(serie Serie, content string, index uint)
 	}, groups[0], content[amount:], nil
 }
 
-func (app *adapter) matchesGroup(group Group, content string, isReverse bool) (uint, error) {
-	if !isReverse {
-		prefixLength := group.Content().Contains(content)
-		return prefixLength, nil
-	}
-
-	// we are in reverse:
-	amount := uint(0)
-	remaining := content
-	for {
-		if len(remaining) <= 0 {
-			break
+func (app *adapter) amountBeforeSerie(serie Serie, content string) (uint, error) {
+	for i := 0; i < len(content); i++ {
+		isMatch, _, _, _, err := app.matchSerie(serie, content[i:], 0)
+		if err != nil {
+			return 0, err
 		}
 
-		prefixLength := group.Content().Contains(remaining)
-		isBreak := prefixLength <= 0
-		if isBreak {
-			amount++
-			remaining = remaining[1:]
-			continue
+		if isMatch {
+			return uint(i), nil
 		}
-
-		break
 	}
 
-	return amount, nil
+	return uint(len(content)), nil
+}
+
+func (app *adapter) matchesGroup(group Group, content string) (uint, error) {
+	prefixLength := group.Content().Contains(content)
+	return prefixLength, nil
 }
 
 func (app *adapter) findPatterns(series map[string]Serie, content string) (Patterns, error) {
-- 
2.43.0


From 21d1e470bd3f95350236b1e6b6fab7613e78f202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 24/57] fix: the grammar accepts to fetch the elements of the
 lists between parenthesis

---
 domain/languages/scripts/resources/base/tokens.alex | 1 +
 1 file changed, 1 insertion(+)

diff --git a/domain/languages/scripts/resources/base/tokens.alex b/domain/languages/scripts/resources/base/tokens.alex
index 733c4d5..1f420b1 100644
--- a/domain/languages/scripts/resources/base/tokens.alex
+++ b/domain/languages/scripts/resources/base/tokens.alex
@@ -606,6 +606,7 @@ singleAssignable
 
 listFetchElement
     : totalListValue listElementFetcher
+    | OPEN_PARENTHESIS totalListValue CLOSE_PARENTHESIS listElementFetcher
     +++
     :
         myList[4]
-- 
2.43.0


From 1345ccf52c9ea25cadde8b7db8a753dabd07f335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 25/57] fix: a recursive token can be tried again at a position
 where a previous attempt ended, and a line stops being partially accepted

---
 domain/languages/lexers/asts/tokens/adapter.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index ba6dbdc..456389a 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -337,7 +337,7 @@ func (app *adapter) lineToMatches(line paths.Line, dependencies paths.Dependenci
 				continue
 			}
 
-			break
+			return nil, nil
 		}
 
 		// if the match is invalid:
@@ -579,12 +579,21 @@ func (app *adapter) containerToMatch(container paths.Container, dependencies pat
 		name := recursiveToken.Name()
 		if previousScript, ok := app.recursiveTokens[name]; ok {
 			if previousScript == script {
-				delete(app.recursiveTokens, name)
 				return nil, nil
 			}
 		}
 
+		previousScript, hasPrevious := app.recursiveTokens[name]
 		app.recursiveTokens[name] = script
+		defer func() {
+			if hasPrevious {
+				app.recursiveTokens[name] = previousScript
+				return
+			}
+
+			delete(app.recursiveTokens, name)
+		}()
+
 		element, err := dependencies.Fetch(name)
 		if err != nil {
 			str := fmt.Sprintf("the recursive token (name: %s) could not be found: %s", name, err.Error())
-- 
2.43.0


From 2a7f87dcaa5de63e89f074a7bfaeaa067015163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 26/57] fix: report the mistake when a legal prefix was refused
 by the lexer, instead of giving a partial success

---
 domain/languages/lexers/asts/mistakes/adapter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/domain/languages/lexers/asts/mistakes/adapter.go b/domain/languages/lexers/asts/mistakes/adapter.go
index b537823..367befb 100644
--- a/domain/languages/lexers/asts/mistakes/adapter.go
+++ b/domain/languages/lexers/asts/mistakes/adapter.go
@@ -321,6 +321,7 @@ func (app *adapter) tokenResultMatches(parentTokenNames []string, matches tokens
 func (app *adapter) ruleMatch(parentTokenNames []string, ruleMatch tokens.RuleMatch, canContainPrefix bool) (Mistake, error) {
 	ruleName := ruleMatch.Rule().Base().Name()
 	ruleMatchResult := ruleMatch.Result()
+	canContainPrefix = canContainPrefix && ruleMatch.CanHavePrefix()
 	if !ruleMatchResult.IsCardinalityValid() {
 		amount := ruleMatchResult.Result().Amount()
 		cardinality := ruleMatch.Rule().Cardinality()
-- 
2.43.0


From f153145d6ed9843cd577fdbbcff30b4492bef5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 27/57] fix: the prefix and suffix of a rule result come from
 its script, a long prefix panicked

---
 domain/languages/lexers/asts/adapter.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/domain/languages/lexers/asts/adapter.go b/domain/languages/lexers/asts/adapter.go
index 4e86616..7487a60 100644
--- a/domain/languages/lexers/asts/adapter.go
+++ b/domain/languages/lexers/asts/adapter.go
@@ -225,8 +225,7 @@ func (app *adapter) tokenMatch(tokenMatch ast_tokens.TokenMatch) (TokenMatch, er
 func (app *adapter) ruleMatch(ruleMatch ast_tokens.RuleMatch) (RuleMatch, error) {
 	name := ruleMatch.Rule().Base().Name()
 	astResult := ruleMatch.Result().Result()
-	input := ruleMatch.Result().Path().Base().Code()
-	result, err := app.ruleResult(name, astResult, input)
+	result, err := app.ruleResult(name, astResult)
 	if err != nil {
 		return nil, err
 	}
@@ -238,11 +237,12 @@ func (app *adapter) ruleMatch(ruleMatch ast_tokens.RuleMatch) (RuleMatch, error)
 	return app.ruleMatchBuilder.Create().WithRule(name).WithResult(result).Now()
 }
 
-func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result, input string) (Result, error) {
+func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result) (Result, error) {
 	if !ruleResult.HasResults() {
 		return nil, nil
 	}
 
+	input := ""
 	firstIndex := uint(0)
 	results := ruleResult.Results()
 	discoveriesContent := ruleResult.Discoveries()
@@ -253,13 +253,14 @@ func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result, input
 		}
 
 		matches := oneResult.Matches().List()
-		for idx, oneMatch := range matches {
+		for _, oneMatch := range matches {
 			oneDiscoveries := oneMatch.Discoveries()
-			discoveriesList = append(discoveriesList, oneDiscoveries.All()...)
-
-			if idx <= 0 {
-				firstIndex = oneMatch.Discoveries().Index()
+			if len(discoveriesList) <= 0 {
+				input = oneMatch.Input()
+				firstIndex = oneDiscoveries.Index()
 			}
+
+			discoveriesList = append(discoveriesList, oneDiscoveries.All()...)
 		}
 	}
 
@@ -280,7 +281,7 @@ func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result, input
 	inputLength := uint(len(input))
 	contentWithPrefixLength := firstIndex + uint(len(discoveriesContent))
 	if contentWithPrefixLength < inputLength {
-		builder.WithSuffix(input[:contentWithPrefixLength])
+		builder.WithSuffix(input[contentWithPrefixLength:])
 	}
 
 	return builder.Now()
@@ -314,7 +315,7 @@ func (app *adapter) results(rule string, results ast_results.Result) (Result, er
 	inputLength := uint(len(input))
 	contentWithPrefixLength := index + uint(len(discoveriesContent))
 	if contentWithPrefixLength < inputLength {
-		builder.WithSuffix(input[:contentWithPrefixLength])
+		builder.WithSuffix(input[contentWithPrefixLength:])
 	}
 
 	return builder.Now()
-- 
2.43.0


From c88b0b151c93243263a9e72e57bdc3bfe56952df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 28/57] fix: the constants share no group builder

---
 domain/languages/lexers/asts/results/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/results/adapter.go b/domain/languages/lexers/asts/results/adapter.go
index 6d27e80..a61ad57 100644
--- a/domain/languages/lexers/asts/results/adapter.go
+++ b/domain/languages/lexers/asts/results/adapter.go
@@ -31,7 +31,7 @@ func (app *adapter) ToResult(input rules.Rule, script string) (Result, error) {
 	builder := app.builder.Create().WithInput(input)
 	if content.IsConstant() {
 		constant := content.Constant()
-		group, err := app.groupBuilder.WithName(constant).WithList([]string{
+		group, err := app.groupBuilder.Create().WithName(constant).WithList([]string{
 			constant,
 		}).Now()
 
-- 
2.43.0


From 05b2f493839df4c2dbe9905cc853e679043cccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 29/57] fix: the minimum of the cardinality of a rule pattern
 is enforced

---
 domain/languages/lexers/asts/results/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/results/adapter.go b/domain/languages/lexers/asts/results/adapter.go
index a61ad57..5b0438f 100644
--- a/domain/languages/lexers/asts/results/adapter.go
+++ b/domain/languages/lexers/asts/results/adapter.go
@@ -85,7 +85,7 @@ func (app *adapter) ToResult(input rules.Rule, script string) (Result, error) {
 			remaining = remaining[amount:]
 		}
 
-		if len(list) > 0 {
+		if len(list) > 0 && cardinality.IsValid(uint(len(list))) {
 			builder.WithMatches(list)
 		}
 
-- 
2.43.0


From 5f44402262571b7f45aa29d0ba1cf5a364b6b472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 30/57] fix: a complete pattern has precedence over a partial
 one at the same index

---
 domain/languages/lexers/containers/patterns/adapter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index fe7c514..4ed3e24 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -180,8 +180,10 @@ func (app *adapter) FromPatternsToResult(patterns Patterns, content string) (Res
 			continue
 		}
 
+		// at the same index, a complete match has precedence over a partial one:
 		disIndex := int(ins.Discoveries().Index())
-		if disIndex < index {
+		isComplete := disIndex == index && res.HasNext() && !ins.HasNext()
+		if disIndex < index || isComplete {
 			index = disIndex
 			res = ins
 		}
-- 
2.43.0


From 0472d093f42be30fe83e58e7967cada62bb0f74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 31/57] fix: the result of a pattern holds its whole input and
 the index of its first discovery

---
 domain/languages/lexers/containers/patterns/adapter.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index 4ed3e24..b61ffc5 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -153,7 +153,7 @@ func (app *adapter) FromPatternToResult(pattern Pattern, content string) (Result
 	amount := len(content)
 	for i := 0; i < amount; i++ {
 		subContent := content[i:]
-		res, err := app.matchPattern(pattern, subContent, uint(i))
+		res, err := app.matchPattern(pattern, content, subContent, uint(i))
 		if err != nil {
 			return nil, err
 		}
@@ -196,14 +196,14 @@ func (app *adapter) FromPatternsToResult(patterns Patterns, content string) (Res
 	return res, nil
 }
 
-func (app *adapter) matchPattern(pattern Pattern, content string, nextIndex uint) (Result, error) {
+func (app *adapter) matchPattern(pattern Pattern, input string, content string, nextIndex uint) (Result, error) {
 	var next Next
 	remaining := content
 	discoveriesList := []Discovery{}
 	choices := pattern.Content().List()
-	for idx, oneChoice := range choices {
+	for _, oneChoice := range choices {
 		currentIndex := uint(0)
-		if idx <= 0 {
+		if len(discoveriesList) <= 0 {
 			currentIndex = nextIndex
 		}
 
@@ -244,7 +244,7 @@ func (app *adapter) matchPattern(pattern Pattern, content string, nextIndex uint
 		return nil, err
 	}
 
-	builder := app.resultBuilder.Create().WithDiscoveries(discoveries).WithInput(content)
+	builder := app.resultBuilder.Create().WithDiscoveries(discoveries).WithInput(input)
 	if next != nil {
 		builder.WithNext(next)
 	}
-- 
2.43.0


From 7e5117f33922fbbe8c81d031b63eaa1c36ae0bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 32/57] fix: the channel switch that follows an element is
 applied, a second one activates the channels again

---
 domain/languages/lexers/asts/tokens/adapter.go       |  4 ++++
 domain/languages/lexers/containers/tokens/adapter.go | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 456389a..b1b65ae 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -322,6 +322,10 @@ func (app *adapter) lineToMatches(line paths.Line, dependencies paths.Dependenci
 	for _, oneInstruction := range instructions {
 		if oneInstruction.IsChannelSwitch() {
 			nextChansAreActivated = !nextChansAreActivated
+			if nextChansAreActivated {
+				chansAreActivated = true
+			}
+
 			continue
 		}
 
diff --git a/domain/languages/lexers/containers/tokens/adapter.go b/domain/languages/lexers/containers/tokens/adapter.go
index 88da9ad..ad9e727 100644
--- a/domain/languages/lexers/containers/tokens/adapter.go
+++ b/domain/languages/lexers/containers/tokens/adapter.go
@@ -450,6 +450,16 @@ func (app *adapter) instructions(content string) ([]Instruction, error) {
 			out = append(out, ins)
 		}
 
+		// the channel switch that follows an element is in the same match as the element:
+		isSwitch := oneMatch[len(oneMatch)-1] == app.switchChannelCharacter
+		if isSwitch && oneMatch[0] != app.switchChannelCharacter {
+			ins, err := app.instructionBuilder.Create().IsChannelSwitch().Now()
+			if err != nil {
+				return nil, err
+			}
+
+			out = append(out, ins)
+		}
 	}
 
 	return out, nil
-- 
2.43.0


From 5fd396705d54524a64cb6baaad39faa933d54201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 33/57] fix: a mandatory cardinality has a pattern string, it
 panicked

---
 domain/languages/lexers/cardinality/adapter.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/domain/languages/lexers/cardinality/adapter.go b/domain/languages/lexers/cardinality/adapter.go
index 896bfe5..b861f9e 100644
--- a/domain/languages/lexers/cardinality/adapter.go
+++ b/domain/languages/lexers/cardinality/adapter.go
@@ -68,6 +68,16 @@ func (app *adapter) ToPatternString(cardinality Cardinality) (string, error) {
 		return app.multipleCharacter, nil
 	}
 
+	if cardinality.IsMandatory() {
+		// the mandatory cardinality has no character, it is written as an amount of one:
+		amount, err := NewSpecificBuilder().Create().WithAmount(1).Now()
+		if err != nil {
+			return "", err
+		}
+
+		return app.specificAdapter.ToPatternString(amount)
+	}
+
 	specific := cardinality.Specific()
 	return app.specificAdapter.ToPatternString(specific)
 }
-- 
2.43.0


From 0376843ba94ffb5ff4cbe48fed1add525992de50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:52 +0000
Subject: [PATCH 34/57] fix: a reference to a linked file is read, it was
 always refused for want of patterns

---
 applications/languages/lexers/application.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/applications/languages/lexers/application.go b/applications/languages/lexers/application.go
index a6d6d5a..2f7e534 100644
--- a/applications/languages/lexers/application.go
+++ b/applications/languages/lexers/application.go
@@ -408,7 +408,7 @@ func (app *application) fetchNotFoundPaths(
 
 	refList := references.References().All()
 	for _, oneReference := range refList {
-		path, err := app.linkToPathFromFile(oneReference, replacementPaths)
+		path, err := app.linkToPathFromFile(oneReference, resContainer, replacementPaths)
 		if err != nil {
 			return nil, err
 		}
@@ -422,6 +422,7 @@ func (app *application) fetchNotFoundPaths(
 
 func (app *application) linkToPathFromFile(
 	reference links.Link,
+	resContainer resources_containers.Container,
 	replacements map[string]asts_paths.Path,
 ) (asts_paths.Path, error) {
 	applicationBuilder := app.builder.Create()
@@ -447,13 +448,15 @@ func (app *application) linkToPathFromFile(
 		return nil, err
 	}
 
-	resContainer, err := app.resourcesContainerBuilder.Create().WithRules(string(rulesContent)).WithTokens(string(tokenContent)).Now()
+	// the linked files do not contain patterns, so their rules use the patterns of the grammar that includes them:
+	patternsContent := resContainer.Patterns()
+	linkedContainer, err := app.resourcesContainerBuilder.Create().WithPatterns(patternsContent).WithRules(string(rulesContent)).WithTokens(string(tokenContent)).Now()
 	if err != nil {
 		return nil, err
 	}
 
 	rootToken := reference.ReferenceToken()
-	resPath, err := app.resourcesPathBuilder.Create().WithRootToken(rootToken).WithContainer(resContainer).Now()
+	resPath, err := app.resourcesPathBuilder.Create().WithRootToken(rootToken).WithContainer(linkedContainer).Now()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From a808b4323c140c22d7e661ddc5a4b019be9005ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:52 +0000
Subject: [PATCH 35/57] fix: a replacement applies to the tokens of its include
 only, it replaced every token of that name

---
 applications/languages/lexers/application.go | 25 ++++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/applications/languages/lexers/application.go b/applications/languages/lexers/application.go
index 2f7e534..a189cc3 100644
--- a/applications/languages/lexers/application.go
+++ b/applications/languages/lexers/application.go
@@ -3,6 +3,7 @@ package lexers
 import (
 	"io/ioutil"
 	"path/filepath"
+	"strings"
 
 	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
 	"github.com/steve-care-software/steve/domain/languages/lexers/asts/mistakes"
@@ -389,8 +390,9 @@ func (app *application) fetchReplacementPaths(
 			return nil, err
 		}
 
-		refTokenName := oneReplacement.ReferenceToken()
-		replacementPaths[refTokenName] = refPath
+		// the include is part of the key, so that only the tokens of that include are replaced:
+		keyname := app.replacementKeyname(oneReplacement.Include(), oneReplacement.ReferenceToken())
+		replacementPaths[keyname] = refPath
 	}
 
 	return replacementPaths, nil
@@ -425,9 +427,18 @@ func (app *application) linkToPathFromFile(
 	resContainer resources_containers.Container,
 	replacements map[string]asts_paths.Path,
 ) (asts_paths.Path, error) {
+	include := reference.Include()
+	prefix := app.replacementKeyname(include, "")
+	includeReplacements := map[string]asts_paths.Path{}
+	for keyname, path := range replacements {
+		if strings.HasPrefix(keyname, prefix) {
+			includeReplacements[strings.TrimPrefix(keyname, prefix)] = path
+		}
+	}
+
 	applicationBuilder := app.builder.Create()
-	if len(replacements) > 0 {
-		applicationBuilder.WithReplacementPaths(replacements)
+	if len(includeReplacements) > 0 {
+		applicationBuilder.WithReplacementPaths(includeReplacements)
 	}
 
 	application, err := applicationBuilder.WithBasePaths(app.basePath).Now()
@@ -435,7 +446,7 @@ func (app *application) linkToPathFromFile(
 		return nil, err
 	}
 
-	includePaths := reference.Include().Paths()
+	includePaths := include.Paths()
 	rulesPath := filepath.Join(app.basePath.Rules(), includePaths.Rules())
 	rulesContent, err := ioutil.ReadFile(rulesPath)
 	if err != nil {
@@ -469,6 +480,10 @@ func (app *application) linkToPathFromFile(
 	return app.replacePathElementName(refPath, reference)
 }
 
+func (app *application) replacementKeyname(include links.Include, tokenName string) string {
+	return strings.Join([]string{include.Name(), tokenName}, ".")
+}
+
 func (app *application) replacePathElementName(
 	refPath asts_paths.Path,
 	reference links.Link,
-- 
2.43.0


From 46de283decdaa2c1c47d2e4200748ce16e60a35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:22 +0000
Subject: [PATCH 36/57] fix: a recursive token is the one of its own script, a
 token of the same name of another script was read or overflowed the stack

---
 domain/languages/lexers/asts/paths/adapter.go | 15 ++++--
 .../lexers/asts/paths/dependencies_builder.go |  4 ++
 domain/languages/lexers/asts/paths/sdk.go     |  3 ++
 .../languages/lexers/asts/paths/tokenpath.go  | 34 +++++++-------
 .../lexers/asts/paths/tokenpath_builder.go    | 22 +++++----
 .../languages/lexers/asts/tokens/adapter.go   | 47 ++++++++++++-------
 6 files changed, 78 insertions(+), 47 deletions(-)

diff --git a/domain/languages/lexers/asts/paths/adapter.go b/domain/languages/lexers/asts/paths/adapter.go
index d9a6770..bba346c 100644
--- a/domain/languages/lexers/asts/paths/adapter.go
+++ b/domain/languages/lexers/asts/paths/adapter.go
@@ -241,6 +241,7 @@ func (app *adapter) ToPath(token tokens.Token) (Path, error) {
 
 func (app *adapter) buildDependencies() ([]Element, error) {
 	dependencyList := []Element{}
+	extDependencyList := []Element{}
 	allTokens := app.tokens.All()
 	for _, oneToken := range allTokens {
 		dep, extDepElements, err := app.toElement(oneToken)
@@ -249,10 +250,11 @@ func (app *adapter) buildDependencies() ([]Element, error) {
 		}
 
 		dependencyList = append(dependencyList, dep)
-		dependencyList = append(dependencyList, extDepElements...)
+		extDependencyList = append(extDependencyList, extDepElements...)
 	}
 
-	return dependencyList, nil
+	// the tokens of the script have precedence over those of the other scripts:
+	return append(dependencyList, extDependencyList...), nil
 }
 
 func (app *adapter) toElement(token tokens.Token) (Element, []Element, error) {
@@ -469,7 +471,12 @@ func (app *adapter) tokenReferenceToTokenPath(tokenReference tokens.TokenReferen
 		if fetchedPath != nil {
 			hasFetchdPath = true
 			extDepElements = append(extDepElements, refExtDep...)
-			builder.WithElement(fetchedPath)
+			dependencies, err := app.dependenciesBuilder.Create().WithDependencies(refExtDep).Now()
+			if err != nil {
+				return nil, nil, err
+			}
+
+			builder.WithElement(fetchedPath).WithDependencies(dependencies)
 		}
 	}
 
@@ -485,7 +492,7 @@ func (app *adapter) tokenReferenceToTokenPath(tokenReference tokens.TokenReferen
 				hasFetchdPath = true
 				element := fetchedPath.Element()
 				extDepElements = append(extDepElements, fetchedPath.CombinedElements()...)
-				builder.WithElement(element)
+				builder.WithElement(element).WithDependencies(fetchedPath.Dependencies())
 			}
 		}
 
diff --git a/domain/languages/lexers/asts/paths/dependencies_builder.go b/domain/languages/lexers/asts/paths/dependencies_builder.go
index aa4158e..459b2bf 100644
--- a/domain/languages/lexers/asts/paths/dependencies_builder.go
+++ b/domain/languages/lexers/asts/paths/dependencies_builder.go
@@ -34,6 +34,10 @@ func (app *dependenciesBuilder) Now() (Dependencies, error) {
 	mp := map[string]Element{}
 	for _, oneElement := range app.list {
 		name := oneElement.Name()
+		if _, ok := mp[name]; ok {
+			continue
+		}
+
 		mp[name] = oneElement
 	}
 
diff --git a/domain/languages/lexers/asts/paths/sdk.go b/domain/languages/lexers/asts/paths/sdk.go
index 23b275a..c4bcd75 100644
--- a/domain/languages/lexers/asts/paths/sdk.go
+++ b/domain/languages/lexers/asts/paths/sdk.go
@@ -242,6 +242,7 @@ type Token interface {
 type TokenPathBuilder interface {
 	Create() TokenPathBuilder
 	WithElement(element Element) TokenPathBuilder
+	WithDependencies(dependencies Dependencies) TokenPathBuilder
 	WithSpecifiers(specifiers []Specifier) TokenPathBuilder
 	Now() (TokenPath, error)
 }
@@ -249,6 +250,8 @@ type TokenPathBuilder interface {
 // TokenPath represents a token path
 type TokenPath interface {
 	Element() Element
+	HasDependencies() bool
+	Dependencies() Dependencies
 	HasSpecifiers() bool
 	Specifiers() []Specifier
 }
diff --git a/domain/languages/lexers/asts/paths/tokenpath.go b/domain/languages/lexers/asts/paths/tokenpath.go
index 8d011b7..ca48d38 100644
--- a/domain/languages/lexers/asts/paths/tokenpath.go
+++ b/domain/languages/lexers/asts/paths/tokenpath.go
@@ -1,30 +1,20 @@
 package paths
 
 type tokenPath struct {
-	element    Element
-	specifiers []Specifier
+	element      Element
+	dependencies Dependencies
+	specifiers   []Specifier
 }
 
 func createTokenPath(
 	element Element,
-) TokenPath {
-	return createTokenPathInternally(element, nil)
-}
-
-func createTokenPathWithSpecifiers(
-	element Element,
-	specifiers []Specifier,
-) TokenPath {
-	return createTokenPathInternally(element, specifiers)
-}
-
-func createTokenPathInternally(
-	element Element,
+	dependencies Dependencies,
 	specifiers []Specifier,
 ) TokenPath {
 	out := tokenPath{
-		element:    element,
-		specifiers: specifiers,
+		element:      element,
+		dependencies: dependencies,
+		specifiers:   specifiers,
 	}
 
 	return &out
@@ -35,6 +25,16 @@ func (obj *tokenPath) Element() Element {
 	return obj.element
 }
 
+// HasDependencies returns true if the element comes from another script, and therefore has its own dependencies, false otherwise
+func (obj *tokenPath) HasDependencies() bool {
+	return obj.dependencies != nil
+}
+
+// Dependencies returns the dependencies of the element, if any
+func (obj *tokenPath) Dependencies() Dependencies {
+	return obj.dependencies
+}
+
 // HasSpecifiers returns true if there is specifiers, false otherwise
 func (obj *tokenPath) HasSpecifiers() bool {
 	return obj.specifiers != nil
diff --git a/domain/languages/lexers/asts/paths/tokenpath_builder.go b/domain/languages/lexers/asts/paths/tokenpath_builder.go
index 29aa154..73386fb 100644
--- a/domain/languages/lexers/asts/paths/tokenpath_builder.go
+++ b/domain/languages/lexers/asts/paths/tokenpath_builder.go
@@ -3,14 +3,16 @@ package paths
 import "errors"
 
 type tokenPathBuilder struct {
-	element    Element
-	specifiers []Specifier
+	element      Element
+	dependencies Dependencies
+	specifiers   []Specifier
 }
 
 func createTokenPathBuilder() TokenPathBuilder {
 	out := tokenPathBuilder{
-		element:    nil,
-		specifiers: nil,
+		element:      nil,
+		dependencies: nil,
+		specifiers:   nil,
 	}
 
 	return &out
@@ -27,6 +29,12 @@ func (app *tokenPathBuilder) WithElement(element Element) TokenPathBuilder {
 	return app
 }
 
+// WithDependencies adds the dependencies of an element that comes from another script to the builder
+func (app *tokenPathBuilder) WithDependencies(dependencies Dependencies) TokenPathBuilder {
+	app.dependencies = dependencies
+	return app
+}
+
 // WithSpecifiers add specifiers to the builder
 func (app *tokenPathBuilder) WithSpecifiers(specifiers []Specifier) TokenPathBuilder {
 	app.specifiers = specifiers
@@ -43,9 +51,5 @@ func (app *tokenPathBuilder) Now() (TokenPath, error) {
 		app.specifiers = nil
 	}
 
-	if app.specifiers != nil {
-		return createTokenPathWithSpecifiers(app.element, app.specifiers), nil
-	}
-
-	return createTokenPath(app.element), nil
+	return createTokenPath(app.element, app.dependencies, app.specifiers), nil
 }
diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index b1b65ae..6094284 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -419,48 +419,60 @@ func (app *adapter) buildNextElement(container paths.Container, dep paths.Depend
 	}
 
 	if container.IsToken() {
-		name := container.Token().Path().Element().Name()
-		return app.buildNextElementFromTokenName(name, dep)
+		tokenPath := container.Token().Path()
+		return app.buildNextElementFromElement(tokenPath.Element(), app.tokenPathDependencies(tokenPath, dep))
 	}
 
-	recursiveTokenName := container.Recursive().Name()
-	return app.buildNextElementFromTokenName(recursiveTokenName, dep)
-}
-
-func (app *adapter) buildNextElementFromTokenName(name string, dep paths.Dependencies) (NextElement, error) {
-	rule, err := app.fetchFirstRuleFromTokenName(name, dep)
+	element, err := dep.Fetch(container.Recursive().Name())
 	if err != nil {
 		return nil, err
 	}
 
-	return app.buildNextElementFromRule(rule)
+	return app.buildNextElementFromElement(element, dep)
+}
+
+// tokenPathDependencies returns the dependencies of the token's own script, if any, the current dependencies otherwise
+func (app *adapter) tokenPathDependencies(tokenPath paths.TokenPath, dep paths.Dependencies) paths.Dependencies {
+	if tokenPath.HasDependencies() {
+		return tokenPath.Dependencies()
+	}
+
+	return dep
 }
 
-func (app *adapter) fetchFirstRuleFromTokenName(name string, dep paths.Dependencies) (rules.Rule, error) {
-	tokenPath, err := dep.Fetch(name)
+func (app *adapter) buildNextElementFromElement(element paths.Element, dep paths.Dependencies) (NextElement, error) {
+	rule, err := app.fetchFirstRuleFromElement(element, dep)
 	if err != nil {
 		return nil, err
 	}
 
-	mustLines := tokenPath.Must()
+	return app.buildNextElementFromRule(rule)
+}
+
+func (app *adapter) fetchFirstRuleFromElement(element paths.Element, dep paths.Dependencies) (rules.Rule, error) {
+	mustLines := element.Must()
 	firstContainer, err := app.fetchFirstContainerFromLine(mustLines[0])
 	if err != nil {
 		return nil, err
 	}
 
 	if firstContainer.IsToken() {
-		nextToken := firstContainer.Token().Path().Element().Name()
-		return app.fetchFirstRuleFromTokenName(nextToken, dep)
+		tokenPath := firstContainer.Token().Path()
+		return app.fetchFirstRuleFromElement(tokenPath.Element(), app.tokenPathDependencies(tokenPath, dep))
 	}
 
 	if firstContainer.IsRule() {
 		return firstContainer.Rule().Base(), nil
 	}
 
-	recursiveToken := firstContainer.Recursive().Name()
-	return app.fetchFirstRuleFromTokenName(recursiveToken, dep)
+	recursiveElement, err := dep.Fetch(firstContainer.Recursive().Name())
+	if err != nil {
+		return nil, err
+	}
 
+	return app.fetchFirstRuleFromElement(recursiveElement, dep)
 }
+
 func (app *adapter) fetchFirstContainerFromLine(line paths.Line) (paths.Container, error) {
 	instructions := line.Instructions()
 	for _, oneInstruction := range instructions {
@@ -534,7 +546,8 @@ func (app *adapter) containerToMatch(container paths.Container, dependencies pat
 
 	if container.IsToken() {
 		token := container.Token()
-		tokenMatch, err := app.tokenToTokenMatch(token, dependencies, script, chansAreActivated)
+		tokenDependencies := app.tokenPathDependencies(token.Path(), dependencies)
+		tokenMatch, err := app.tokenToTokenMatch(token, tokenDependencies, script, chansAreActivated)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From f4e63816d33481240381a69f47ec20abcb271dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 37/57] fix: a first assigned name that begins with the name of
 a type is a name, it was read as a declaration

---
 domain/languages/scripts/resources/base/tokens.alex | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/scripts/resources/base/tokens.alex b/domain/languages/scripts/resources/base/tokens.alex
index 1f420b1..52d69cd 100644
--- a/domain/languages/scripts/resources/base/tokens.alex
+++ b/domain/languages/scripts/resources/base/tokens.alex
@@ -471,8 +471,8 @@ commaAssigneeFirst
     ;
 
 assigneeNameFirst
-    : variableDeclaration
-    | assigneeName
+    : assigneeName
+    | variableDeclaration
     +++
     :
         string myVariable
-- 
2.43.0


From 17774e57fb426f3acb5a916d5ebd09acbc74d020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 38/57] fix: true and false are assigned as boolean values,
 they were read as the names of lists

---
 domain/languages/scripts/resources/base/tokens.alex | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/scripts/resources/base/tokens.alex b/domain/languages/scripts/resources/base/tokens.alex
index 52d69cd..52c7d2f 100644
--- a/domain/languages/scripts/resources/base/tokens.alex
+++ b/domain/languages/scripts/resources/base/tokens.alex
@@ -539,8 +539,8 @@ commaAssignable
     ;
 
 assignable
-    : totalListAssignable
-    | singleAssignable
+    : singleAssignable
+    | totalListAssignable
     +++
     :
         -456.543
-- 
2.43.0


From 41e28506e79626cff2ab72fa59f27118f05624c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 39/57] fix: a name that begins with append is a name, it was
 read as an append when a comma followed

---
 domain/languages/scripts/resources/base/tokens.alex | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/domain/languages/scripts/resources/base/tokens.alex b/domain/languages/scripts/resources/base/tokens.alex
index 52c7d2f..da20781 100644
--- a/domain/languages/scripts/resources/base/tokens.alex
+++ b/domain/languages/scripts/resources/base/tokens.alex
@@ -122,6 +122,8 @@ logFuncCall
 
 listAppend
     : APPEND listValue COMMA singleAssignable
+    ---
+    : # APPEND MIN_MAJ_LETTERS #
     +++
     :
         append [34, 212, 12, 32], myList[:45]...
-- 
2.43.0


From 38c2f47a4eff46cb80b27d8a9279e614fe526310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:01 +0000
Subject: [PATCH 40/57] fix: an element is read once at the same place, reading
 nested lists and parentheses took a time multiplied by up to seven at each
 level

---
 .../languages/lexers/asts/tokens/adapter.go   | 51 ++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 6094284..66aa504 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -3,6 +3,7 @@ package tokens
 import (
 	"errors"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
@@ -36,6 +37,17 @@ type adapter struct {
 	canContainPrefix          bool
 	canContainSuffix          bool
 	recursiveTokens           map[string]string
+	readTokens                map[readTokenKey]Token
+}
+
+// readTokenKey represents everything that influences how an element is read
+type readTokenKey struct {
+	element           paths.Element
+	dependencies      paths.Dependencies
+	scriptLength      int
+	chansAreActivated bool
+	canContainPrefix  bool
+	recursiveTokens   string
 }
 
 func createAdapterWithChannels(
@@ -191,6 +203,7 @@ func createAdapterInternally(
 		canContainPrefix:          canContainPrefix,
 		canContainSuffix:          canContainSuffix,
 		recursiveTokens:           map[string]string{},
+		readTokens:                map[readTokenKey]Token{},
 	}
 
 	return &out
@@ -199,10 +212,17 @@ func createAdapterInternally(
 // ToToken converts a script to a Token instance
 func (app *adapter) ToToken(script string) (Token, error) {
 	app.recursiveTokens = map[string]string{}
+	app.readTokens = map[readTokenKey]Token{}
 	return app.elementToToken(app.rootPath.Element(), app.rootPath.Dependencies(), script, true)
 }
 
 func (app *adapter) elementToToken(element paths.Element, dependencies paths.Dependencies, script string, chansAreActivated bool) (Token, error) {
+	// the same element is often read at the same place by many lines, so read it once:
+	key := app.readTokenKey(element, dependencies, script, chansAreActivated)
+	if token, ok := app.readTokens[key]; ok {
+		return token, nil
+	}
+
 	name := element.Name()
 	path, err := app.pathBuilder.Create().WithElement(element).WithDependencies(dependencies).Now()
 	if err != nil {
@@ -219,7 +239,36 @@ func (app *adapter) elementToToken(element paths.Element, dependencies paths.Dep
 		builder.WithContent(tokenContent)
 	}
 
-	return builder.Now()
+	token, err := builder.Now()
+	if err != nil {
+		return nil, err
+	}
+
+	if key.canContainPrefix == app.canContainPrefix {
+		app.readTokens[key] = token
+	}
+
+	return token, nil
+}
+
+func (app *adapter) readTokenKey(element paths.Element, dependencies paths.Dependencies, script string, chansAreActivated bool) readTokenKey {
+	// only the recursive tokens that are being read at the same place change how the element is read:
+	names := []string{}
+	for name, recursiveScript := range app.recursiveTokens {
+		if recursiveScript == script {
+			names = append(names, name)
+		}
+	}
+
+	sort.Strings(names)
+	return readTokenKey{
+		element:           element,
+		dependencies:      dependencies,
+		scriptLength:      len(script),
+		chansAreActivated: chansAreActivated,
+		canContainPrefix:  app.canContainPrefix,
+		recursiveTokens:   strings.Join(names, ","),
+	}
 }
 
 func (app *adapter) elementToTokenContent(element paths.Element, dependencies paths.Dependencies, script string, chansAreActivated bool) (TokenContent, error) {
-- 
2.43.0


From 2a18a0eaaa3ef3d6dfbf08679654e25412099814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 41/57] fix: the validity of a match is decided once, reading
 tokens with specifiers took a time multiplied at each level

---
 .../languages/lexers/asts/tokens/matches.go   | 32 +++++++++++++------
 .../lexers/asts/tokens/tokenmatch.go          | 25 +++++++++------
 2 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/matches.go b/domain/languages/lexers/asts/tokens/matches.go
index 10387ca..5f2d0f3 100644
--- a/domain/languages/lexers/asts/tokens/matches.go
+++ b/domain/languages/lexers/asts/tokens/matches.go
@@ -5,7 +5,9 @@ import (
 )
 
 type matches struct {
-	list []BlockMatch
+	list        []BlockMatch
+	isValid     bool
+	discoveries string
 }
 
 func createMatches(
@@ -15,6 +17,12 @@ func createMatches(
 		list: list,
 	}
 
+	// matches never change, so verify them once instead of each time their parents are:
+	out.isValid = out.verify()
+	if out.isValid {
+		out.discoveries = out.discover()
+	}
+
 	return &out
 }
 
@@ -35,13 +43,7 @@ func (obj *matches) Input() string {
 
 // IsValid returns true if the matches is valid, false otherwise
 func (obj *matches) IsValid() bool {
-	for _, oneMatch := range obj.list {
-		if !oneMatch.IsValid() {
-			return false
-		}
-	}
-
-	return true
+	return obj.isValid
 }
 
 // IsExact returns true if the matches is exact, false otherwise
@@ -57,10 +59,20 @@ func (obj *matches) IsExact() bool {
 
 // Discoveries returns the matched discoveries
 func (obj *matches) Discoveries() string {
-	if !obj.IsValid() {
-		return ""
+	return obj.discoveries
+}
+
+func (obj *matches) verify() bool {
+	for _, oneMatch := range obj.list {
+		if !oneMatch.IsValid() {
+			return false
+		}
 	}
 
+	return true
+}
+
+func (obj *matches) discover() string {
 	list := []string{}
 	for _, oneMatch := range obj.list {
 		list = append(list, oneMatch.Discoveries())
diff --git a/domain/languages/lexers/asts/tokens/tokenmatch.go b/domain/languages/lexers/asts/tokens/tokenmatch.go
index ac97db4..f1e5c3e 100644
--- a/domain/languages/lexers/asts/tokens/tokenmatch.go
+++ b/domain/languages/lexers/asts/tokens/tokenmatch.go
@@ -6,6 +6,7 @@ type tokenMatch struct {
 	path       paths.TokenPath
 	result     TokenResult
 	specifiers []Specifier
+	isValid    bool
 }
 
 func createTokenMatch(
@@ -34,20 +35,14 @@ func createTokenMatchInternally(
 		specifiers: specifiers,
 	}
 
+	// token matches never change, so verify them once instead of each time their parents are:
+	out.isValid = out.verify()
 	return &out
 }
 
 // IsValid returns true if the match is valid, false otherwise
 func (obj *tokenMatch) IsValid() bool {
-	if obj.HasSpecifiers() {
-		for _, oneSpecifier := range obj.specifiers {
-			if !oneSpecifier.IsValid() {
-				return false
-			}
-		}
-	}
-
-	return obj.Result().IsValid()
+	return obj.isValid
 }
 
 // IsExact returns true if the match is exact, false otherwise
@@ -74,3 +69,15 @@ func (obj *tokenMatch) HasSpecifiers() bool {
 func (obj *tokenMatch) Specifiers() []Specifier {
 	return obj.specifiers
 }
+
+func (obj *tokenMatch) verify() bool {
+	if obj.HasSpecifiers() {
+		for _, oneSpecifier := range obj.specifiers {
+			if !oneSpecifier.IsValid() {
+				return false
+			}
+		}
+	}
+
+	return obj.Result().IsValid()
+}
-- 
2.43.0


From 29ea1139abd1eac26e4a728e433a61edd0c3552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:54 +0000
Subject: [PATCH 42/57] fix: a mistake is searched with the script of its own
 call, a lexer used by many goroutines mixed them up

---
 domain/languages/lexers/asts/mistakes/adapter.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/asts/mistakes/adapter.go b/domain/languages/lexers/asts/mistakes/adapter.go
index 367befb..67e8ee4 100644
--- a/domain/languages/lexers/asts/mistakes/adapter.go
+++ b/domain/languages/lexers/asts/mistakes/adapter.go
@@ -54,8 +54,10 @@ func createAdapter(
 
 // ToMistake converts an InnerToken instance to a Mistake instance
 func (app *adapter) ToMistake(result tokens.Token, canContainPrefix bool) (Mistake, error) {
-	app.currentScript = ""
-	return app.token([]string{}, result, canContainPrefix)
+	// the script is written while the mistake is searched, so each call writes its own:
+	current := *app
+	current.currentScript = ""
+	return current.token([]string{}, result, canContainPrefix)
 }
 
 func (app *adapter) token(parentTokenNames []string, result tokens.Token, canContainPrefix bool) (Mistake, error) {
-- 
2.43.0


From 68302fabe73ee351321a9280ddf2bccd26efcefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 43/57] fix: variable declarations without any declaration are
 refused, an empty list was accepted

---
 .../scripts/base/parsers/variabledeclarations_builder.go        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/scripts/base/parsers/variabledeclarations_builder.go b/domain/languages/scripts/base/parsers/variabledeclarations_builder.go
index 2f27638..4ae6466 100644
--- a/domain/languages/scripts/base/parsers/variabledeclarations_builder.go
+++ b/domain/languages/scripts/base/parsers/variabledeclarations_builder.go
@@ -27,7 +27,7 @@ func (app *variableDeclarationsBuilder) WithDeclarations(declarations []Variable
 
 // Now builds a new VariableDeclarations instance
 func (app *variableDeclarationsBuilder) Now() (VariableDeclarations, error) {
-	if app.list == nil && len(app.list) <= 0 {
+	if app.list != nil && len(app.list) <= 0 {
 		app.list = nil
 	}
 
-- 
2.43.0


From fc92b2160f0e082565217deb8681c35bbb2becd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 44/57] fix: the combined elements of a path are a list of
 their own, they were written in the list its dependencies share

---
 domain/languages/lexers/asts/paths/path.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/asts/paths/path.go b/domain/languages/lexers/asts/paths/path.go
index eb45142..2451f8a 100644
--- a/domain/languages/lexers/asts/paths/path.go
+++ b/domain/languages/lexers/asts/paths/path.go
@@ -29,6 +29,7 @@ func (obj *path) Dependencies() Dependencies {
 
 // CombinedElements returns the current element combined with the dependencies elements
 func (obj *path) CombinedElements() []Element {
-	dep := obj.dep.All()
-	return append(dep, obj.element)
+	output := []Element{}
+	output = append(output, obj.dep.All()...)
+	return append(output, obj.element)
 }
-- 
2.43.0


From a17b5ab1ec4b5089e9188c5690cbc150a87794db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 45/57] fix: a channel that activates the channels again does
 not begin with a channel, it overflowed the stack

---
 domain/languages/lexers/asts/tokens/adapter.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 66aa504..aa67c28 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -38,6 +38,7 @@ type adapter struct {
 	canContainSuffix          bool
 	recursiveTokens           map[string]string
 	readTokens                map[readTokenKey]Token
+	channelScripts            map[string]bool
 }
 
 // readTokenKey represents everything that influences how an element is read
@@ -48,6 +49,7 @@ type readTokenKey struct {
 	chansAreActivated bool
 	canContainPrefix  bool
 	recursiveTokens   string
+	isInChannel       bool
 }
 
 func createAdapterWithChannels(
@@ -204,6 +206,7 @@ func createAdapterInternally(
 		canContainSuffix:          canContainSuffix,
 		recursiveTokens:           map[string]string{},
 		readTokens:                map[readTokenKey]Token{},
+		channelScripts:            map[string]bool{},
 	}
 
 	return &out
@@ -213,6 +216,7 @@ func createAdapterInternally(
 func (app *adapter) ToToken(script string) (Token, error) {
 	app.recursiveTokens = map[string]string{}
 	app.readTokens = map[readTokenKey]Token{}
+	app.channelScripts = map[string]bool{}
 	return app.elementToToken(app.rootPath.Element(), app.rootPath.Dependencies(), script, true)
 }
 
@@ -268,6 +272,7 @@ func (app *adapter) readTokenKey(element paths.Element, dependencies paths.Depen
 		chansAreActivated: chansAreActivated,
 		canContainPrefix:  app.canContainPrefix,
 		recursiveTokens:   strings.Join(names, ","),
+		isInChannel:       app.channelScripts[script],
 	}
 }
 
@@ -345,6 +350,13 @@ func (app *adapter) bestLineToMatches(lines []paths.Line, dependencies paths.Dep
 }
 
 func (app *adapter) findMatchesInChannels(script string) (LineMatch, error) {
+	// a channel that activates the channels again does not begin with a channel, it would read itself forever:
+	if app.channelScripts[script] {
+		return nil, nil
+	}
+
+	app.channelScripts[script] = true
+	defer delete(app.channelScripts, script)
 	for _, oneChannel := range app.channels {
 		token, err := app.elementToToken(oneChannel.Element(), oneChannel.Dependencies(), script, false)
 		if err != nil {
-- 
2.43.0


From cd083411fb4062a0622d2555d1f7f08ad2cde8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:25 +0000
Subject: [PATCH 46/57] fix: the mistake of a prefix is located before that
 prefix, its place was one of no text

---
 domain/languages/lexers/asts/mistakes/adapter.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/domain/languages/lexers/asts/mistakes/adapter.go b/domain/languages/lexers/asts/mistakes/adapter.go
index 67e8ee4..e7eec32 100644
--- a/domain/languages/lexers/asts/mistakes/adapter.go
+++ b/domain/languages/lexers/asts/mistakes/adapter.go
@@ -387,11 +387,6 @@ func (app *adapter) patternResults(parentTokenNames []string, ruleName string, r
 }
 
 func (app *adapter) patternResult(parentTokenNames []string, ruleName string, match patterns.Result, canContainPrefix bool) (Mistake, error) {
-	app.currentScript = strings.Join([]string{
-		app.currentScript,
-		match.Discoveries().Content(),
-	}, "")
-
 	index := match.Discoveries().Index()
 	if !canContainPrefix && index > 0 {
 		input := match.Input()
@@ -413,6 +408,11 @@ func (app *adapter) patternResult(parentTokenNames []string, ruleName string, ma
 		)
 	}
 
+	app.currentScript = strings.Join([]string{
+		app.currentScript,
+		match.Discoveries().Content(),
+	}, "")
+
 	return nil, nil
 }
 
-- 
2.43.0


From bbc1412cd0b85a86ab7c4e870be0dd80ece5e62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:25 +0000
Subject: [PATCH 47/57] fix: the repetitions of a rule are all part of the
 place of a mistake, only the first one was

---
 domain/languages/lexers/asts/mistakes/adapter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/mistakes/adapter.go b/domain/languages/lexers/asts/mistakes/adapter.go
index e7eec32..49684bf 100644
--- a/domain/languages/lexers/asts/mistakes/adapter.go
+++ b/domain/languages/lexers/asts/mistakes/adapter.go
@@ -354,7 +354,9 @@ func (app *adapter) ruleMatch(parentTokenNames []string, ruleMatch tokens.RuleMa
 				return nil, err
 			}
 
-			return mistake, nil
+			if mistake != nil {
+				return mistake, nil
+			}
 		}
 	}
 
-- 
2.43.0


From 25a2a93ef8f098335bbc6028584f2b50a2b1618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:35 +0000
Subject: [PATCH 48/57] fix: a text whose legal prefix precedes the root is
 read from the root, it was always refused

---
 domain/languages/lexers/asts/adapter.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/domain/languages/lexers/asts/adapter.go b/domain/languages/lexers/asts/adapter.go
index 7487a60..3f774a1 100644
--- a/domain/languages/lexers/asts/adapter.go
+++ b/domain/languages/lexers/asts/adapter.go
@@ -56,6 +56,31 @@ func createAdapter(
 
 // ToAST converts a script to an AST instance
 func (app *adapter) ToAST(script string) (AST, error) {
+	out, err := app.toAST(script)
+	if err != nil {
+		return nil, err
+	}
+
+	if !app.canContainPrefix || out.IsSuccess() {
+		return out, nil
+	}
+
+	// the prefix is legal, so the root begins where it is first found:
+	for index := 1; index < len(script); index++ {
+		withoutPrefix, err := app.toAST(script[index:])
+		if err != nil {
+			return nil, err
+		}
+
+		if withoutPrefix.IsSuccess() {
+			return withoutPrefix, nil
+		}
+	}
+
+	return out, nil
+}
+
+func (app *adapter) toAST(script string) (AST, error) {
 	astToken, err := app.astTokenAdapter.ToToken(script)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e120ae8d23b4a7243cbb222e7c634b11c5a3c0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:18 +0000
Subject: [PATCH 49/57] fix: the next element of a token whose line is only
 channel switches is found in its other lines, it panicked

---
 .../languages/lexers/asts/tokens/adapter.go   | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index aa67c28..7070362 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -511,12 +511,16 @@ func (app *adapter) buildNextElementFromElement(element paths.Element, dep paths
 }
 
 func (app *adapter) fetchFirstRuleFromElement(element paths.Element, dep paths.Dependencies) (rules.Rule, error) {
-	mustLines := element.Must()
-	firstContainer, err := app.fetchFirstContainerFromLine(mustLines[0])
+	firstContainer, err := app.fetchFirstContainerFromLines(element.Must())
 	if err != nil {
 		return nil, err
 	}
 
+	if firstContainer == nil {
+		str := fmt.Sprintf("the element (name: %s) contains no token or rule, so no next element could be found", element.Name())
+		return nil, errors.New(str)
+	}
+
 	if firstContainer.IsToken() {
 		tokenPath := firstContainer.Token().Path()
 		return app.fetchFirstRuleFromElement(tokenPath.Element(), app.tokenPathDependencies(tokenPath, dep))
@@ -534,6 +538,22 @@ func (app *adapter) fetchFirstRuleFromElement(element paths.Element, dep paths.D
 	return app.fetchFirstRuleFromElement(recursiveElement, dep)
 }
 
+func (app *adapter) fetchFirstContainerFromLines(lines []paths.Line) (paths.Container, error) {
+	for _, oneLine := range lines {
+		container, err := app.fetchFirstContainerFromLine(oneLine)
+		if err != nil {
+			return nil, err
+		}
+
+		// a line that contains only channel switches never matches:
+		if container != nil {
+			return container, nil
+		}
+	}
+
+	return nil, nil
+}
+
 func (app *adapter) fetchFirstContainerFromLine(line paths.Line) (paths.Container, error) {
 	instructions := line.Instructions()
 	for _, oneInstruction := range instructions {
-- 
2.43.0


From c868228918d4e1df23aa6b9d802e59ff17765baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:12 +0000
Subject: [PATCH 50/57] fix: a text read again after its prefix keeps what was
 read of it, each place was read again

---
 domain/languages/lexers/asts/tokens/adapter.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 7070362..837fb6c 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -39,6 +39,7 @@ type adapter struct {
 	recursiveTokens           map[string]string
 	readTokens                map[readTokenKey]Token
 	channelScripts            map[string]bool
+	readScript                string
 }
 
 // readTokenKey represents everything that influences how an element is read
@@ -207,6 +208,7 @@ func createAdapterInternally(
 		recursiveTokens:           map[string]string{},
 		readTokens:                map[readTokenKey]Token{},
 		channelScripts:            map[string]bool{},
+		readScript:                "",
 	}
 
 	return &out
@@ -215,8 +217,14 @@ func createAdapterInternally(
 // ToToken converts a script to a Token instance
 func (app *adapter) ToToken(script string) (Token, error) {
 	app.recursiveTokens = map[string]string{}
-	app.readTokens = map[readTokenKey]Token{}
 	app.channelScripts = map[string]bool{}
+
+	// the end of the script that was just read contains the same elements at the same places, so keep what was read:
+	if app.readScript == "" || !strings.HasSuffix(app.readScript, script) {
+		app.readTokens = map[readTokenKey]Token{}
+		app.readScript = script
+	}
+
 	return app.elementToToken(app.rootPath.Element(), app.rootPath.Dependencies(), script, true)
 }
 
-- 
2.43.0


From e09ac5ced72d0045b8c461655d03ac48fb24c52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:59 +0000
Subject: [PATCH 51/57] fix: a legal prefix found in a script stays legal in
 the next ones, it was not for the adapter that found one

---
 domain/languages/lexers/asts/tokens/adapter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 837fb6c..0bc1241 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -219,6 +219,12 @@ func (app *adapter) ToToken(script string) (Token, error) {
 	app.recursiveTokens = map[string]string{}
 	app.channelScripts = map[string]bool{}
 
+	// the prefix of this script does not make the prefix of the next one illegal:
+	canContainPrefix := app.canContainPrefix
+	defer func() {
+		app.canContainPrefix = canContainPrefix
+	}()
+
 	// the end of the script that was just read contains the same elements at the same places, so keep what was read:
 	if app.readScript == "" || !strings.HasSuffix(app.readScript, script) {
 		app.readTokens = map[readTokenKey]Token{}
-- 
2.43.0


From 79f0b0506fca1eb165b10a2eec32ea6e97a78671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:42 +0000
Subject: [PATCH 52/57] fix: the element of a token is built once for the
 tokens that refer to it, it was built again at each reference

---
 domain/languages/lexers/asts/paths/adapter.go | 91 ++++++++++++++++++-
 .../languages/lexers/containers/tokens/sdk.go |  1 +
 .../lexers/containers/tokens/token.go         | 19 ++++
 3 files changed, 108 insertions(+), 3 deletions(-)

diff --git a/domain/languages/lexers/asts/paths/adapter.go b/domain/languages/lexers/asts/paths/adapter.go
index bba346c..5ad838d 100644
--- a/domain/languages/lexers/asts/paths/adapter.go
+++ b/domain/languages/lexers/asts/paths/adapter.go
@@ -3,6 +3,8 @@ package paths
 import (
 	"errors"
 	"fmt"
+	"sort"
+	"strings"
 
 	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
 	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
@@ -26,6 +28,14 @@ type adapter struct {
 	elementReplaceFn       FetchElementReplacementFn
 	dependencies           []Element
 	currentTokenStack      map[string]bool
+	builtElements          map[string]builtElement
+	reachableNames         map[string]map[string]bool
+}
+
+// builtElement represents the element of a token, with the elements of the other scripts it uses
+type builtElement struct {
+	element        Element
+	extDepElements []Element
 }
 
 func createAdapter(
@@ -203,6 +213,8 @@ func createAdapterInternally(
 		elementReplaceFn:       elementReplaceFn,
 		dependencies:           nil,
 		currentTokenStack:      map[string]bool{},
+		builtElements:          map[string]builtElement{},
+		reachableNames:         map[string]map[string]bool{},
 	}
 
 	return &out
@@ -285,18 +297,91 @@ func (app *adapter) toElement(token tokens.Token) (Element, []Element, error) {
 		return nil, nil, err
 	}
 
-	return element, externalDepElements, nil
+	return element, app.uniqueElements(externalDepElements), nil
+}
+
+// uniqueElements keeps the first element of each name, as the dependencies do
+func (app *adapter) uniqueElements(elements []Element) []Element {
+	out := []Element{}
+	names := map[string]bool{}
+	for _, oneElement := range elements {
+		name := oneElement.Name()
+		if names[name] {
+			continue
+		}
+
+		names[name] = true
+		out = append(out, oneElement)
+	}
+
+	return out
 }
 
 func (app *adapter) toElementEncapsulated(token tokens.Token) (Element, []Element, error) {
+	// the same token is often referenced by many lines, so build its element once:
 	name := token.Name()
+	keyname := app.builtElementKeyname(token)
+	if built, ok := app.builtElements[keyname]; ok {
+		return built.element, built.extDepElements, nil
+	}
+
 	app.currentTokenStack[name] = true
-	rulePath, extDepElements, err := app.toElement(token)
+	element, extDepElements, err := app.toElement(token)
 	if _, ok := app.currentTokenStack[name]; ok {
 		delete(app.currentTokenStack, name)
 	}
 
-	return rulePath, extDepElements, err
+	if err != nil {
+		return nil, nil, err
+	}
+
+	app.builtElements[keyname] = builtElement{
+		element:        element,
+		extDepElements: extDepElements,
+	}
+
+	return element, extDepElements, nil
+}
+
+// builtElementKeyname returns everything that influences how the element of a token is built
+func (app *adapter) builtElementKeyname(token tokens.Token) string {
+	// only the tokens of the stack that can be reached from the token change how it is built:
+	names := []string{}
+	reachableNames := app.fetchReachableNames(token)
+	for name := range app.currentTokenStack {
+		if reachableNames[name] {
+			names = append(names, name)
+		}
+	}
+
+	sort.Strings(names)
+	return strings.Join(append([]string{token.Name()}, names...), ",")
+}
+
+func (app *adapter) fetchReachableNames(token tokens.Token) map[string]bool {
+	if names, ok := app.reachableNames[token.Name()]; ok {
+		return names
+	}
+
+	names := map[string]bool{}
+	remaining := []tokens.Token{token}
+	for len(remaining) > 0 {
+		referencedNames := remaining[0].ReferencedNames()
+		remaining = remaining[1:]
+		for _, oneName := range referencedNames {
+			if names[oneName] {
+				continue
+			}
+
+			names[oneName] = true
+			if referencedToken, err := app.tokens.Find(oneName); err == nil {
+				remaining = append(remaining, referencedToken)
+			}
+		}
+	}
+
+	app.reachableNames[token.Name()] = names
+	return names
 }
 
 func (app *adapter) processLines(parentTokenName string, parsedLines []tokens.Line) ([]Line, []Element, error) {
diff --git a/domain/languages/lexers/containers/tokens/sdk.go b/domain/languages/lexers/containers/tokens/sdk.go
index f29ff7d..a59b3f6 100644
--- a/domain/languages/lexers/containers/tokens/sdk.go
+++ b/domain/languages/lexers/containers/tokens/sdk.go
@@ -191,6 +191,7 @@ type Token interface {
 	Block() Block
 	HasTestSuite() bool
 	TestSuite() TestSuite
+	ReferencedNames() []string
 }
 
 // TestSuiteBuilder represents a test suite builder
diff --git a/domain/languages/lexers/containers/tokens/token.go b/domain/languages/lexers/containers/tokens/token.go
index e88bd61..eef8160 100644
--- a/domain/languages/lexers/containers/tokens/token.go
+++ b/domain/languages/lexers/containers/tokens/token.go
@@ -54,3 +54,22 @@ func (obj *token) HasTestSuite() bool {
 func (obj *token) TestSuite() TestSuite {
 	return obj.testSuite
 }
+
+// ReferencedNames returns the names of the tokens its lines refer to
+func (obj *token) ReferencedNames() []string {
+	lines := append([]Line{}, obj.block.Must().All()...)
+	if obj.block.HasNot() {
+		lines = append(lines, obj.block.Not().All()...)
+	}
+
+	output := []string{}
+	for _, oneLine := range lines {
+		for _, oneInstruction := range oneLine.Instructions() {
+			if oneInstruction.IsElement() && oneInstruction.Element().Content().IsToken() {
+				output = append(output, oneInstruction.Element().Content().Token().Name())
+			}
+		}
+	}
+
+	return output
+}
-- 
2.43.0


From 1bf695eda3db0de1341bb65e7d6bce5d3ee5bf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:42 +0000
Subject: [PATCH 53/57] fix: a tokens file that includes itself is refused, it
 was read forever

---
 applications/languages/lexers/application.go | 23 +++++++++++++++-----
 applications/languages/lexers/builder.go     |  9 ++++++++
 applications/languages/lexers/sdk.go         |  1 +
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/applications/languages/lexers/application.go b/applications/languages/lexers/application.go
index a189cc3..d0de63b 100644
--- a/applications/languages/lexers/application.go
+++ b/applications/languages/lexers/application.go
@@ -1,6 +1,8 @@
 package lexers
 
 import (
+	"errors"
+	"fmt"
 	"io/ioutil"
 	"path/filepath"
 	"strings"
@@ -39,6 +41,7 @@ type application struct {
 	builder                   Builder
 	basePath                  paths.Paths
 	replacementPaths          map[string]asts_paths.Path
+	includedTokens            []string
 }
 
 func createApplication(
@@ -57,6 +60,7 @@ func createApplication(
 	builder Builder,
 	basePath paths.Paths,
 	replacementPaths map[string]asts_paths.Path,
+	includedTokens []string,
 ) Application {
 	out := application{
 		resourcesPathBuilder:      resourcesPathBuilder,
@@ -74,6 +78,7 @@ func createApplication(
 		builder:                   builder,
 		basePath:                  basePath,
 		replacementPaths:          replacementPaths,
+		includedTokens:            includedTokens,
 	}
 
 	return &out
@@ -441,11 +446,6 @@ func (app *application) linkToPathFromFile(
 		applicationBuilder.WithReplacementPaths(includeReplacements)
 	}
 
-	application, err := applicationBuilder.WithBasePaths(app.basePath).Now()
-	if err != nil {
-		return nil, err
-	}
-
 	includePaths := include.Paths()
 	rulesPath := filepath.Join(app.basePath.Rules(), includePaths.Rules())
 	rulesContent, err := ioutil.ReadFile(rulesPath)
@@ -454,6 +454,19 @@ func (app *application) linkToPathFromFile(
 	}
 
 	tokenPath := filepath.Join(app.basePath.Tokens(), includePaths.Tokens())
+	for _, oneIncludedToken := range app.includedTokens {
+		if oneIncludedToken == tokenPath {
+			str := fmt.Sprintf("the tokens file (path: %s) includes itself", tokenPath)
+			return nil, errors.New(str)
+		}
+	}
+
+	includedTokens := append([]string{tokenPath}, app.includedTokens...)
+	application, err := applicationBuilder.WithBasePaths(app.basePath).WithIncludedTokens(includedTokens).Now()
+	if err != nil {
+		return nil, err
+	}
+
 	tokenContent, err := ioutil.ReadFile(tokenPath)
 	if err != nil {
 		return nil, err
diff --git a/applications/languages/lexers/builder.go b/applications/languages/lexers/builder.go
index 85aedb9..a6dedbf 100644
--- a/applications/languages/lexers/builder.go
+++ b/applications/languages/lexers/builder.go
@@ -31,6 +31,7 @@ type builder struct {
 	rootAdapter               roots.Adapter
 	basePath                  paths.Paths
 	replacementPaths          map[string]asts_paths.Path
+	includedTokens            []string
 }
 
 func createBuilder(
@@ -62,6 +63,7 @@ func createBuilder(
 		rootAdapter:               rootAdapter,
 		basePath:                  nil,
 		replacementPaths:          nil,
+		includedTokens:            nil,
 	}
 
 	return &out
@@ -97,6 +99,12 @@ func (app *builder) WithReplacementPaths(replacementPaths map[string]asts_paths.
 	return app
 }
 
+// WithIncludedTokens add the tokens files that are being included to the builder
+func (app *builder) WithIncludedTokens(includedTokens []string) Builder {
+	app.includedTokens = includedTokens
+	return app
+}
+
 // Now builds a new Application root
 func (app *builder) Now() (Application, error) {
 	if app.basePath == nil {
@@ -123,5 +131,6 @@ func (app *builder) Now() (Application, error) {
 		app,
 		app.basePath,
 		app.replacementPaths,
+		app.includedTokens,
 	), nil
 }
diff --git a/applications/languages/lexers/sdk.go b/applications/languages/lexers/sdk.go
index 8ece485..99c4167 100644
--- a/applications/languages/lexers/sdk.go
+++ b/applications/languages/lexers/sdk.go
@@ -53,6 +53,7 @@ type Builder interface {
 	Create() Builder
 	WithBasePaths(paths paths.Paths) Builder
 	WithReplacementPaths(replacementPaths map[string]asts_paths.Path) Builder
+	WithIncludedTokens(includedTokens []string) Builder
 	Now() (Application, error)
 }
 
-- 
2.43.0


From 7740aedb8b1e973140962ef7ee5bbd560ebb5e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:42 +0000
Subject: [PATCH 54/57] fix: the replacements that a replacement relies on are
 made first, the order of the statements changed what was read

---
 applications/languages/lexers/application.go | 81 ++++++++++++++++++--
 1 file changed, 76 insertions(+), 5 deletions(-)

diff --git a/applications/languages/lexers/application.go b/applications/languages/lexers/application.go
index d0de63b..fa23d67 100644
--- a/applications/languages/lexers/application.go
+++ b/applications/languages/lexers/application.go
@@ -141,7 +141,7 @@ func (app *application) AST(rootResource resources_singles.Single, content conte
 		return nil, err
 	}
 
-	notFoundFunc, replacementFunc, err := app.createNotFoundAndReplacementFuncs(container, references, app.replacementPaths, false)
+	notFoundFunc, replacementFunc, err := app.createNotFoundAndReplacementFuncs(container, tokens, references, app.replacementPaths, false)
 	if err != nil {
 		return nil, err
 	}
@@ -185,7 +185,7 @@ func (app *application) path(resource resources_paths.Path, replacementPaths map
 	}
 
 	pathAdapterBuilder := app.pathAdapterBuilder.Create().WithTokens(tokens)
-	notFoundFunc, replacementFunc, err := app.createNotFoundAndReplacementFuncs(container, references, replacementPaths, skipReplacement)
+	notFoundFunc, replacementFunc, err := app.createNotFoundAndReplacementFuncs(container, tokens, references, replacementPaths, skipReplacement)
 	if err != nil {
 		return nil, err
 	}
@@ -255,7 +255,7 @@ func (app *application) Tests(resource resources_multiples.Multiple) ([]suites.S
 		suiteApplicationBuilder.WithChannels(channels)
 	}
 
-	notFoundFunc, replacementFunc, err := app.createNotFoundAndReplacementFuncs(container, references, app.replacementPaths, false)
+	notFoundFunc, replacementFunc, err := app.createNotFoundAndReplacementFuncs(container, tokens, references, app.replacementPaths, false)
 	if err != nil {
 		return nil, err
 	}
@@ -335,12 +335,13 @@ func (app *application) createTokens(patternsScript string, rulesScript string,
 
 func (app *application) createNotFoundAndReplacementFuncs(
 	resContainer resources_containers.Container,
+	tokens tokens.Tokens,
 	references references.References,
 	replacementPaths map[string]asts_paths.Path,
 	skipReplacement bool,
 ) (asts_paths.FetchTokenNotFoundFn, asts_paths.FetchElementReplacementFn, error) {
 	if !skipReplacement {
-		replacement, err := app.fetchReplacementPaths(references, resContainer, replacementPaths)
+		replacement, err := app.fetchReplacementPaths(tokens, references, resContainer, replacementPaths)
 		if err != nil {
 			return nil, nil, err
 		}
@@ -367,6 +368,7 @@ func (app *application) createNotFoundAndReplacementFuncs(
 }
 
 func (app *application) fetchReplacementPaths(
+	tokens tokens.Tokens,
 	references references.References,
 	resContainer resources_containers.Container,
 	replacementPaths map[string]asts_paths.Path,
@@ -382,7 +384,7 @@ func (app *application) fetchReplacementPaths(
 	}
 
 	replacementPaths = updatedPaths
-	repList := references.Replacements().All()
+	repList := app.orderReplacements(tokens, references)
 	for _, oneReplacement := range repList {
 		localTokenName := oneReplacement.LocalToken()
 		resPath, err := app.resourcesPathBuilder.Create().WithRootToken(localTokenName).WithContainer(resContainer).Now()
@@ -403,6 +405,75 @@ func (app *application) fetchReplacementPaths(
 	return replacementPaths, nil
 }
 
+// orderReplacements puts the replacements of the includes that a replacement refers to before that replacement
+func (app *application) orderReplacements(
+	tokens tokens.Tokens,
+	references references.References,
+) []links.Link {
+	output := []links.Link{}
+	visited := map[links.Link]bool{}
+	repList := references.Replacements().All()
+	var visit func(replacement links.Link)
+	visit = func(replacement links.Link) {
+		if visited[replacement] {
+			return
+		}
+
+		visited[replacement] = true
+		includes := app.referredIncludes(replacement.LocalToken(), tokens, references)
+		for _, oneReplacement := range repList {
+			if includes[oneReplacement.Include().Name()] {
+				visit(oneReplacement)
+			}
+		}
+
+		output = append(output, replacement)
+	}
+
+	for _, oneReplacement := range repList {
+		visit(oneReplacement)
+	}
+
+	return output
+}
+
+// referredIncludes returns the names of the includes that a token refers to, directly or through other tokens
+func (app *application) referredIncludes(
+	tokenName string,
+	tokens tokens.Tokens,
+	references references.References,
+) map[string]bool {
+	includes := map[string]bool{}
+	if !references.HasReferences() {
+		return includes
+	}
+
+	visited := map[string]bool{}
+	remaining := []string{tokenName}
+	for len(remaining) > 0 {
+		name := remaining[0]
+		remaining = remaining[1:]
+		if visited[name] {
+			continue
+		}
+
+		visited[name] = true
+		token, err := tokens.Find(name)
+		if err == nil {
+			remaining = append(remaining, token.ReferencedNames()...)
+			continue
+		}
+
+		for _, oneReference := range references.References().All() {
+			if oneReference.LocalToken() == name {
+				includes[oneReference.Include().Name()] = true
+			}
+		}
+	}
+
+	return includes
+}
+
 func (app *application) fetchNotFoundPaths(
 	references references.References,
 	resContainer resources_containers.Container,
-- 
2.43.0


From b70e02e42d32e460d55c878004e0cd2dcd4d1ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:14:54 +0000
Subject: [PATCH 55/57] fix: a rule whose constant holds "###" holds "###", not
 a quote

---
 domain/languages/lexers/containers/rules/sdk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/containers/rules/sdk.go b/domain/languages/lexers/containers/rules/sdk.go
index edd76e7..466e0b0 100644
--- a/domain/languages/lexers/containers/rules/sdk.go
+++ b/domain/languages/lexers/containers/rules/sdk.go
@@ -28,7 +28,7 @@ func NewAdapter() Adapter {
 	contentDelimiter := "\""
 	openRegexPatternDelimiter := "\\["
 	closeRegexPatternDelimiter := "\\]"
-	escapeReplacementCode := "###"
+	escapeReplacementCode := "\xff" // this byte is never part of a text
 	return createAdapter(
 		builder,
 		ruleBuilder,
-- 
2.43.0


From 394723665ae76674f64f47dd943f598c3c76d563 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:14:54 +0000
Subject: [PATCH 56/57] fix: a group option keeps every escaped quote it holds,
 and "###" is not one

---
 domain/languages/lexers/containers/patterns/adapter.go | 6 +-----
 domain/languages/lexers/containers/patterns/sdk.go     | 2 +-
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index b61ffc5..3f42d49 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -493,11 +493,7 @@ func (app *adapter) findGroups(content string) (Groups, error) {
 		characters := []string{}
 		options := strings.Split(oneMatch[2], app.delimiter)
 		for _, oneOption := range options {
-
-			if oneOption == app.escapeReplacementCode {
-				oneOption = app.stringDelimiter
-			}
-
+			oneOption = strings.Replace(oneOption, app.escapeReplacementCode, app.stringDelimiter, -1)
 			characters = append(characters, oneOption)
 		}
 
diff --git a/domain/languages/lexers/containers/patterns/sdk.go b/domain/languages/lexers/containers/patterns/sdk.go
index 0972d4e..3ecfe11 100644
--- a/domain/languages/lexers/containers/patterns/sdk.go
+++ b/domain/languages/lexers/containers/patterns/sdk.go
@@ -23,7 +23,7 @@ func NewAdapter() Adapter {
 	stringDelimiter := "\""
 	whiteSpacePattern := "[ \t\r\n]*"
 	anythingExcept := "[^%s]*"
-	escapeReplacementCode := "###"
+	escapeReplacementCode := "\xff" // this byte is never part of a text
 	return createAdapter(
 		builder,
 		patternBuilder,
-- 
2.43.0


From b67ea3e7ba89bf5988485ae329af11566bb88c68 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 08:12:18 +0000
Subject: [PATCH 57/57] fix: an amount is in a range up to its maximum, which
 is compared with the amount and not with the amount of parts

---
 domain/languages/lexers/asts/tokens/tokenresultmatches.go  | 6 ++----
 domain/languages/lexers/containers/patterns/discoveries.go | 4 ++--
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/tokenresultmatches.go b/domain/languages/lexers/asts/tokens/tokenresultmatches.go
index eb9f311..9006602 100644
--- a/domain/languages/lexers/asts/tokens/tokenresultmatches.go
+++ b/domain/languages/lexers/asts/tokens/tokenresultmatches.go
@@ -68,12 +68,10 @@ func (obj *tokenResultMatches) IsAmount(amount uint) bool {
 
 // IsInRange returns true if the amount of tokens is within the given range
 func (obj *tokenResultMatches) IsInRange(min uint, max uint) bool {
-	listAmount := len(obj.list)
-	return obj.IsAtLeast(min) && int(max) > listAmount
+	return obj.IsAtLeast(min) && max >= obj.Amount()
 }
 
 // IsAtLeast returns true if there is at least this amount of tokens
 func (obj *tokenResultMatches) IsAtLeast(min uint) bool {
-	listAmount := len(obj.list)
-	return int(min) <= listAmount
+	return min <= obj.Amount()
 }
diff --git a/domain/languages/lexers/containers/patterns/discoveries.go b/domain/languages/lexers/containers/patterns/discoveries.go
index a425206..f86d837 100644
--- a/domain/languages/lexers/containers/patterns/discoveries.go
+++ b/domain/languages/lexers/containers/patterns/discoveries.go
@@ -66,8 +66,8 @@ func (obj *discoveries) IsAmount(amount uint) bool {
 
 // IsInRange returns true if in range, false otherwise
 func (obj *discoveries) IsInRange(min uint, max uint) bool {
-	currentAmount := len(obj.list)
-	return obj.IsAtLeast(min) && int(max) >= currentAmount
+	currentAmount := obj.Amount()
+	return obj.IsAtLeast(min) && max >= currentAmount
 }
 
 // IsAtLeast returns true if the current amount is at least, false otherwise
-- 
2.43.0

