From c58901eb19cad2947795402cc3af37873aae26a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:53 +0000
Subject: [PATCH 01/12] fix: refuse creation offsets wider than 31 bits instead
 of panicking

EncodeMnemonicPlaintext and EncodeMnemonicEncrypted panicked inside the bit
buffer for any creationOffset of 2^31 or more. Return ErrCreationTooLate.
---
 encoding.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/encoding.go b/encoding.go
index fbffa64..14f3fa4 100644
--- a/encoding.go
+++ b/encoding.go
@@ -8,6 +8,7 @@ import (
 	"hash/crc32"
 	"io"
 	"math/big"
+	"math/bits"
 
 	"golang.org/x/crypto/argon2"
 
@@ -47,6 +48,10 @@ func EncodeMnemonicPlaintext(seed *Seed, creationOffset uint32) ([]string, error
 		return nil, err
 	}
 
+	if uint(bits.Len32(creationOffset)) > CreationOffsetBitCount {
+		return nil, ErrCreationTooLate
+	}
+
 	// Version 0 indicates a plaintext phrase.
 	version := MnemonicVersion(0)
 
@@ -74,6 +79,10 @@ func EncodeMnemonicEncrypted(
 		return nil, err
 	}
 
+	if uint(bits.Len32(creationOffset)) > CreationOffsetBitCount {
+		return nil, ErrCreationTooLate
+	}
+
 	if len(password) == 0 {
 		return nil, errors.New("cannot encrypt recovery phrase with empty password")
 	}
-- 
2.43.0


From d7f55dda66ca570e40a98ba21d701413289c60d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:53 +0000
Subject: [PATCH 02/12] fix: refuse negative seed integers

NewSeed accepted negative integers: the seed's bytes were those of the
absolute value, and encoding it as a phrase panicked.
---
 seed.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/seed.go b/seed.go
index 4d7e684..3fa455c 100644
--- a/seed.go
+++ b/seed.go
@@ -2,6 +2,7 @@ package mnemonikey
 
 import (
 	"crypto/rand"
+	"errors"
 	"fmt"
 	"io"
 	"math/big"
@@ -24,12 +25,16 @@ type Seed struct {
 //
 // Returns ErrUnsupportedSeedEra if the era number is greater than EraLatest.
 //
-// Returns an error if entropyInt's bit-length is greater than EntropyBitCount.
+// Returns an error if entropyInt is negative, or if its bit-length is greater than EntropyBitCount.
 func NewSeed(era Era, entropyInt *big.Int) (*Seed, error) {
 	if err := era.check(); err != nil {
 		return nil, err
 	}
 
+	if entropyInt.Sign() < 0 {
+		return nil, errors.New("provided entropy integer is negative")
+	}
+
 	if l := entropyInt.BitLen(); l > EntropyBitCount {
 		return nil, fmt.Errorf(
 			"provided entropy integer is %d bits, exceeding maximum size of %d",
-- 
2.43.0


From 7dc5051bcddc813c9acf6af95c202df02cb1e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:53 +0000
Subject: [PATCH 03/12] fix: make seeds independent of the integer they were
 made from

NewSeed kept the caller's *big.Int, so changing it afterwards changed the
seed (and seeds from one DecodedMnemonic shared their value).
---
 seed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seed.go b/seed.go
index 3fa455c..e1be7a8 100644
--- a/seed.go
+++ b/seed.go
@@ -44,7 +44,7 @@ func NewSeed(era Era, entropyInt *big.Int) (*Seed, error) {
 
 	seed := &Seed{
 		era:   era,
-		value: entropyInt,
+		value: new(big.Int).Set(entropyInt),
 	}
 
 	return seed, nil
-- 
2.43.0


From 9207d0e26e0a8bb8b0850fa524d04936bdcc7ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:54 +0000
Subject: [PATCH 04/12] fix: EncodeToIndices leaves its argument alone and
 refuses negative payloads

The payload integer of the caller was shifted down to zero while encoding,
and a negative payload ran past the start of the index slice and panicked.
---
 mnemonic/encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mnemonic/encode.go b/mnemonic/encode.go
index 08b6ab0..304312c 100644
--- a/mnemonic/encode.go
+++ b/mnemonic/encode.go
@@ -29,12 +29,16 @@ var ErrInvalidIndex = errors.New("word index value is too large")
 // bitSize does not necessarily have to be evenly divisible by BitsPerWord. If there is
 // any unused space, it will be encoded at the leading edge of the resulting slice of indices.
 func EncodeToIndices(payloadInt *big.Int, bitSize uint) ([]uint16, error) {
+	if payloadInt.Sign() < 0 {
+		return nil, errors.New("payload cannot be negative")
+	}
 	if payloadLen := payloadInt.BitLen(); uint(payloadLen) > bitSize {
 		return nil, fmt.Errorf("payload size (%d bits) is larger than given bitSize %d", payloadLen, bitSize)
 	}
 
 	nWords := (bitSize + BitsPerWord - 1) / BitsPerWord
 	indices := make([]uint16, nWords)
+	payloadInt = new(big.Int).Set(payloadInt)
 	for i := nWords - 1; payloadInt.BitLen() > 0; i-- {
 		indices[i] = uint16(new(big.Int).And(payloadInt, wordMask).Uint64())
 		payloadInt.Rsh(payloadInt, BitsPerWord)
-- 
2.43.0


From 07672ea196bfc8a466f572b1239b6e0ba5ac299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:51 +0000
Subject: [PATCH 05/12] fix: hash the whole salt and password when they exceed
 the S2K byte count

---
 pgp/s2k.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pgp/s2k.go b/pgp/s2k.go
index 34451ee..aa96639 100644
--- a/pgp/s2k.go
+++ b/pgp/s2k.go
@@ -13,6 +13,11 @@ import (
 func stringToKey(hashFunc HashFuncID, password, salt []byte, byteCount int) []byte {
 	preimage := append(salt, password...)
 
+	// The salt and password are always hashed in full at least once.
+	if byteCount < len(preimage) {
+		byteCount = len(preimage)
+	}
+
 	h := hashFunc.New()
 	m := byteCount / len(preimage)
 	for i := 0; i < m; i++ {
-- 
2.43.0


From f92739cbc47a98fab5e94aea712a0800f583d6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:32 +0000
Subject: [PATCH 06/12] fix: refuse key lifetimes which OpenPGP cannot express

---
 mnemonikey.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mnemonikey.go b/mnemonikey.go
index 008dd60..2a4e68c 100644
--- a/mnemonikey.go
+++ b/mnemonikey.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"time"
 
 	"golang.org/x/crypto/openpgp"
@@ -22,9 +23,9 @@ const (
 	SubkeyTypeSigning        SubkeyType = "signing"
 )
 
-// ErrTTLInvalid is returned when constructing a Mnemonikey, if the TTL
-// selected is less than zero.
-var ErrTTLInvalid = errors.New("key time-to-live cannot be negative")
+// ErrTTLInvalid is returned when constructing a Mnemonikey, if the TTL selected is
+// neither zero nor a number of seconds which OpenPGP can express as 32 bits.
+var ErrTTLInvalid = errors.New("key time-to-live must be between 1 and 4294967295 seconds")
 
 // ErrCreationTooLate is returned when constructing a Mnemonikey, if its creation
 // time is too far in the future to fit in CreationOffsetBitCount.
@@ -60,7 +61,7 @@ func New(seed *Seed, creation time.Time, opts *KeyOptions) (*Mnemonikey, error)
 	if opts == nil {
 		opts = new(KeyOptions)
 	}
-	if opts.TTL < 0 {
+	if opts.TTL != 0 && (opts.TTL < time.Second || opts.TTL/time.Second > math.MaxUint32) {
 		return nil, ErrTTLInvalid
 	} else if creation.After(MaxCreationTime) {
 		return nil, ErrCreationTooLate
-- 
2.43.0


From cf9e11e923a9d0d6bd189a8139eb1b91549c6f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:19 +0000
Subject: [PATCH 07/12] fix: refuse TTLs whose duration overflows

---
 cmd/mnemonikey/expiry.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/mnemonikey/expiry.go b/cmd/mnemonikey/expiry.go
index 662016b..36dea3d 100644
--- a/cmd/mnemonikey/expiry.go
+++ b/cmd/mnemonikey/expiry.go
@@ -3,6 +3,7 @@ package main
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -34,5 +35,10 @@ func parseTTL(input string) (time.Duration, error) {
 		return 0, badInputErr
 	}
 
+	// Refuse durations which would overflow.
+	if quantity > uint64(math.MaxInt64/unit) {
+		return 0, badInputErr
+	}
+
 	return time.Duration(quantity) * unit, nil
 }
-- 
2.43.0


From a06daaafbb8a006e6958083b4859f43b87832c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:26 +0000
Subject: [PATCH 08/12] fix: never write a word file through an existing path

---
 cmd/mnemonikey/generate.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/mnemonikey/generate.go b/cmd/mnemonikey/generate.go
index f455e68..eba520b 100644
--- a/cmd/mnemonikey/generate.go
+++ b/cmd/mnemonikey/generate.go
@@ -206,7 +206,17 @@ func saveMnemonic(words []string, wordFile string) error {
 	}
 
 	wordFileContent := strings.Join(words, " ") + "\n"
-	if err := os.WriteFile(wordFile, []byte(wordFileContent), 0600); err != nil {
+
+	// O_EXCL refuses anything which appeared at this path in the meantime, and dangling symlinks.
+	file, err := os.OpenFile(wordFile, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)
+	if err != nil {
+		return fmt.Errorf("failed to write words to file: %w", err)
+	}
+	_, err = file.WriteString(wordFileContent)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
 		return fmt.Errorf("failed to write words to file: %w", err)
 	}
 	return nil
-- 
2.43.0


From a4935feabe8f0aa735a460ec3b0cefa0b443f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:26 +0000
Subject: [PATCH 09/12] fix: report word files which cannot be read to their
 end

---
 cmd/mnemonikey/recover.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/mnemonikey/recover.go b/cmd/mnemonikey/recover.go
index 2eaffd6..d8b07b4 100644
--- a/cmd/mnemonikey/recover.go
+++ b/cmd/mnemonikey/recover.go
@@ -224,6 +224,9 @@ func readWordFile(fpath string) ([]string, error) {
 			return nil, fmt.Errorf("invalid format for word file")
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read word file %s: %w", fpath, err)
+	}
 	if len(words) == 0 {
 		return nil, fmt.Errorf("found only no words in word file %s", fpath)
 	}
-- 
2.43.0


From 92141f852bc0e39bc236f34bf3a4cbd4395f1004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:41 +0000
Subject: [PATCH 10/12] fix: convert writes its phrase to the output word file

---
 cmd/mnemonikey/convert.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmd/mnemonikey/convert.go b/cmd/mnemonikey/convert.go
index 34456e7..953d4c2 100644
--- a/cmd/mnemonikey/convert.go
+++ b/cmd/mnemonikey/convert.go
@@ -13,8 +13,7 @@ type ConvertOptions struct {
 	RecoverConvertOptions
 	GenerateConvertOptions
 
-	EncryptPhrase  bool
-	OutputWordFile string
+	EncryptPhrase bool
 }
 
 var ConvertCommand = &Command[ConvertOptions]{
@@ -73,10 +72,10 @@ func decodeAndConvertPhrase(opts *ConvertOptions) (err error) {
 		}
 	}
 
-	if opts.InputWordFile == "" {
+	if opts.OutputWordFile == "" {
 		printMnemonic(recoveryMnemonic)
 	} else {
-		if err := saveMnemonic(recoveryMnemonic, opts.InputWordFile); err != nil {
+		if err := saveMnemonic(recoveryMnemonic, opts.OutputWordFile); err != nil {
 			return fmt.Errorf("failed to write words to file: %w", err)
 		}
 	}
-- 
2.43.0


From 7093bc37a464b1480914547b5a746effe76dba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:18 +0000
Subject: [PATCH 11/12] fix: text wrapping ends and keeps every word at any
 terminal width

---
 cmd/mnemonikey/terminal.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/mnemonikey/terminal.go b/cmd/mnemonikey/terminal.go
index 4f93511..77b31e4 100644
--- a/cmd/mnemonikey/terminal.go
+++ b/cmd/mnemonikey/terminal.go
@@ -78,11 +78,12 @@ func justifyWidth(indent, width int, text string) string {
 	indentString := strings.Repeat(" ", indent)
 
 	words := strings.Split(text, " ")
-	lines := make([]string, 0, len(text)/(indent+width)+1)
+	lines := []string{}
 
 	for len(words) > 0 {
 		line := indentString
-		for len(words) > 0 && len(line)+len(words[0])+1 <= maxWidth {
+		// A word which is too long for any line gets a line of its own.
+		for len(words) > 0 && (line == indentString || len(line)+len(words[0])+1 <= maxWidth) {
 			if line != indentString {
 				line += " "
 			}
-- 
2.43.0


From e387080c31b54aa3144f8c021be56bd41ab4e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:09 +0000
Subject: [PATCH 12/12] fix: going back in the phrase prompt replaces the
 earlier word

---
 cmd/mnemonikey/word_input.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/mnemonikey/word_input.go b/cmd/mnemonikey/word_input.go
index 48690e1..5bcf323 100644
--- a/cmd/mnemonikey/word_input.go
+++ b/cmd/mnemonikey/word_input.go
@@ -92,7 +92,10 @@ func userInputMnemonic() ([]string, error) {
 
 			// Left arrow, return to revise previous word index
 			if charBuf[0] == keyCodeLeftArrow {
-				i -= 1
+				if i > 0 {
+					i -= 1
+					words = words[:i]
+				}
 				break
 			}
 
-- 
2.43.0

