From 32c27e84c154520ca56e8d5e7d4d9f7e6f3f4bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 01/22] fix: authenticate the empty final chunk and its trailer
 during decrypt

A zero length chunk with the EOF mark was accepted without opening the AEAD
tag or looking at the trailer; so any encrypted stream could be truncated at
a chunk boundary by appending 4 bytes.
---
 sign/encrypt.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index 6db7e1c..403fde5 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -576,11 +576,8 @@ func (d *Decryptor) decrypt(i uint32) ([]byte, bool, error) {
 	case m > uint32(d.ChunkSize):
 		return nil, false, fmt.Errorf("decrypt: chunksize is too large (%d)", m)
 
-	case m == 0:
-		if !eof {
-			return nil, false, fmt.Errorf("decrypt: block %d: zero-sized chunk without EOF", i)
-		}
-		return nil, eof, nil
+	case m == 0 && !eof:
+		return nil, false, fmt.Errorf("decrypt: block %d: zero-sized chunk without EOF", i)
 
 	default:
 	}
-- 
2.43.0


From c8eb822f31ff105c1dcd86269fd449657ea6bbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 02/22] fix: accept the largest chunk size the encryptor can
 produce

---
 sign/encrypt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index 403fde5..b6b3856 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -438,7 +438,7 @@ func NewDecryptor(rd io.Reader) (*Decryptor, error) {
 		return nil, fmt.Errorf("decrypt: decode error: %w", err)
 	}
 
-	if d.ChunkSize == 0 || d.ChunkSize >= maxChunkSize {
+	if d.ChunkSize == 0 || d.ChunkSize > maxChunkSize {
 		return nil, fmt.Errorf("decrypt: invalid chunkSize %d", d.ChunkSize)
 	}
 
-- 
2.43.0


From d7d6755b02bed596ed95f8246ad79491959a4345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 03/22] fix: don't reuse an Encryptor: its block nonces would
 repeat under the same key

---
 sign/encrypt.go | 13 ++++++++-----
 sign/stream.go  | 11 ++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index b6b3856..8c21e6b 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -186,11 +186,14 @@ func (e *Encryptor) Encrypt(rd io.Reader, wr io.WriteCloser) error {
 		return ErrEncIsStream
 	}
 
-	if !e.started {
-		err := e.start(wr)
-		if err != nil {
-			return err
-		}
+	// Every block is encrypted with a key that's unique to this Encryptor and a
+	// nonce derived from the block#. So, an Encryptor can only be used once.
+	if e.started {
+		return ErrEncStarted
+	}
+
+	if err := e.start(wr); err != nil {
+		return err
 	}
 
 	buf := make([]byte, e.ChunkSize)
diff --git a/sign/stream.go b/sign/stream.go
index 7c25ec2..f07bbff 100644
--- a/sign/stream.go
+++ b/sign/stream.go
@@ -34,11 +34,12 @@ var _ io.WriteCloser = &encWriter{}
 // NewStreamWriter begins stream encryption to an underlying destination writer 'wr'.
 // It returns an io.WriteCloser.
 func (e *Encryptor) NewStreamWriter(wr io.WriteCloser) (io.WriteCloser, error) {
-	if !e.started {
-		err := e.start(wr)
-		if err != nil {
-			return nil, err
-		}
+	if e.started {
+		return nil, ErrEncStarted
+	}
+
+	if err := e.start(wr); err != nil {
+		return nil, err
 	}
 
 	w := &encWriter{
-- 
2.43.0


From 87d1ce6d8b771187fbb581d79ad228ffb8508a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 04/22] fix: stop before the 32-bit block counter (and thus the
 nonce) wraps around

---
 sign/encrypt.go |  9 ++++++++-
 sign/errors.go  |  1 +
 sign/stream.go  | 12 ++++++++++--
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index 8c21e6b..603fa7b 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -217,7 +217,10 @@ func (e *Encryptor) Encrypt(rd io.Reader, wr io.WriteCloser) error {
 				return err
 			}
 
-			i++
+			// the block# is part of the nonce; it must never wrap around
+			if i++; i == 0 && !eof {
+				return ErrTooManyBlocks
+			}
 		}
 	}
 
@@ -556,6 +559,10 @@ func (d *Decryptor) Decrypt(wr io.Writer) error {
 			d.eof = true
 			return nil
 		}
+
+		if i+1 == 0 {
+			return ErrTooManyBlocks
+		}
 	}
 }
 
diff --git a/sign/errors.go b/sign/errors.go
index 91fbd28..45b8dd4 100644
--- a/sign/errors.go
+++ b/sign/errors.go
@@ -19,6 +19,7 @@ import (
 )
 
 var (
+	ErrTooManyBlocks  = errors.New("encrypt: too many blocks; use a larger block size")
 	ErrClosed         = errors.New("encrypt: stream already closed")
 	ErrNoKey          = errors.New("decrypt: no private key set for decryption")
 	ErrEncStarted     = errors.New("encrypt: can't add new recipient after encryption has started")
diff --git a/sign/stream.go b/sign/stream.go
index f07bbff..20de685 100644
--- a/sign/stream.go
+++ b/sign/stream.go
@@ -80,7 +80,12 @@ func (w *encWriter) Write(b []byte) (int, error) {
 			}
 
 			w.n = 0
-			w.blk += 1
+
+			// the block# is part of the nonce; it must never wrap around
+			if w.blk += 1; w.blk == 0 {
+				w.err = ErrTooManyBlocks
+				return 0, w.err
+			}
 		}
 	}
 	return n, nil
@@ -150,7 +155,10 @@ func (r *encReader) Read(b []byte) (int, error) {
 		}
 		r.d.eof = eof
 		r.unread = buf
-		r.blk++
+		if r.blk++; r.blk == 0 && !eof {
+			r.err = ErrTooManyBlocks
+			return 0, r.err
+		}
 	}
 
 	if len(r.unread) > 0 {
-- 
2.43.0


From 6f68e698b67fc0a931747917844f7884e9ebf6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 05/22] fix: refuse to write a header that no decryptor accepts
 (too many recipients)

---
 sign/encrypt.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index 603fa7b..d2856f6 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -88,6 +88,9 @@ const (
 	maxChunkSize uint32 = 1 << 30
 	_EOF         uint32 = 1 << 31
 
+	// max size of the variable length header
+	maxHdrSize = 1048576
+
 	_Magic       = "SigTool"
 	_MagicLen    = len(_Magic)
 	_FixedHdrLen = _MagicLen + 1 + 4 // 1: version, 4: len of variable segment
@@ -230,6 +233,9 @@ func (e *Encryptor) Encrypt(rd io.Reader, wr io.WriteCloser) error {
 // Begin the encryption process by writing the header
 func (e *Encryptor) start(wr io.Writer) error {
 	varSize := e.Size()
+	if varSize > maxHdrSize {
+		return ErrHeaderTooBig
+	}
 
 	buffer := make([]byte, _FixedHdrLen+varSize+sha256.Size)
 	fixHdr := buffer[:_FixedHdrLen]
@@ -404,7 +410,7 @@ func NewDecryptor(rd io.Reader) (*Decryptor, error) {
 	varSize := binary.BigEndian.Uint32(b[_MagicLen+1:])
 
 	// sanity check on variable segment length
-	if varSize > 1048576 {
+	if varSize > maxHdrSize {
 		return nil, ErrHeaderTooBig
 	}
 	if varSize < 32 {
-- 
2.43.0


From 5356394f2f7841fa361767a77f077dc6e518ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 06/22] fix: don't leave a Decryptor half-initialized when
 sender verification fails

Decrypt() or NewStreamReader() after a failed SetPrivateKey() saw a non-nil key
and then crashed with a nil AEAD instead of returning ErrNoKey.
---
 sign/encrypt.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index d2856f6..ca3a237 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -484,8 +484,6 @@ func (d *Decryptor) SetPrivateKey(sk *PrivateKey, senderPk *PublicKey) error {
 			return fmt.Errorf("decrypt: can't unwrap key %d: %w", i, err)
 		}
 		if key != nil {
-			d.key = key
-			d.sender = senderPk
 			goto havekey
 		}
 	}
@@ -499,7 +497,7 @@ havekey:
 
 	outbuf := make([]byte, sha256.Size+_AesKeySize+_AEADNonceSize)
 
-	buf := expand(outbuf, d.key, d.hdrsum, []byte(_DataKeyExpansion))
+	buf := expand(outbuf, key, d.hdrsum, []byte(_DataKeyExpansion))
 
 	var dkey, hmackey []byte
 
@@ -525,6 +523,10 @@ havekey:
 	// We have a separate on-stack buffer for reading the header (4 bytes).
 	// Thus, the actual I/O buf will never be larger than the chunksize + AEAD Overhead
 	d.buf = make([]byte, int(d.ChunkSize)+d.ae.Overhead())
+
+	// the decryptor is usable only after everything above succeeded
+	d.key = key
+	d.sender = senderPk
 	return nil
 }
 
-- 
2.43.0


From 3a199afbfa0b788dc524ffd15bde6c1ae26be682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 07/22] fix: sender verification must fail when the sender is
 anonymous

---
 sign/encrypt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index ca3a237..a2524a2 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -762,6 +762,9 @@ func (d *Decryptor) verifySender(key []byte, senderPk *PublicKey) error {
 
 		// we set this to indicate that the sender authenticated themselves;
 		d.auth = true
+	} else if senderPk != nil {
+		// caller wants to verify the sender; but the sender is anonymous.
+		return ErrBadSender
 	}
 
 	return nil
-- 
2.43.0


From 7746137d6c8fbea1a43d3a62a5d3cbf22c3872c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 08/22] fix: don't crash on ssh public keys of other algorithms

---
 sign/keys.go | 2 +-
 sign/ssh.go  | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/sign/keys.go b/sign/keys.go
index a6869b8..228a3ea 100644
--- a/sign/keys.go
+++ b/sign/keys.go
@@ -372,7 +372,7 @@ func MakePublicKey(yml []byte) (*PublicKey, error) {
 // Make a public key from a string
 func MakePublicKeyFromString(s string) (*PublicKey, error) {
 	// first try to decode it as a openssh key
-	if pk2, err := parseEncPubKey([]byte(s), "command-line-pk"); err == nil {
+	if pk2, err := parseEncPubKey([]byte(s), "command-line-pk"); err == nil && pk2 != nil {
 		return pk2, nil
 	}
 
diff --git a/sign/ssh.go b/sign/ssh.go
index 13bc1e2..bae419e 100644
--- a/sign/ssh.go
+++ b/sign/ssh.go
@@ -63,7 +63,12 @@ func parseSSHPublicKey(in []byte) (*PublicKey, error) {
 		return nil, ErrBadPublicKey
 	}
 
-	return parseEncPubKey([]byte(v[1]), v[2])
+	pk, err := parseEncPubKey([]byte(v[1]), v[2])
+	if err == nil && pk == nil {
+		// valid ssh key; but not a supported algorithm
+		return nil, ErrBadPublicKey
+	}
+	return pk, err
 }
 
 // parse a wire encoded public key
-- 
2.43.0


From 99618069f9ee501cbff796302e347e2f64c213cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 09/22] fix: don't crash on malformed openssh private keys

---
 sign/ssh.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sign/ssh.go b/sign/ssh.go
index bae419e..6b79e22 100644
--- a/sign/ssh.go
+++ b/sign/ssh.go
@@ -258,7 +258,7 @@ type opensshED25519 struct {
 
 func parseOpenSSHPrivateKey(data []byte, getpw func() ([]byte, error)) (*PrivateKey, error) {
 	magic := append([]byte(opensshv1Magic), 0)
-	if !bytes.Equal(magic, data[0:len(magic)]) {
+	if !bytes.HasPrefix(data, magic) {
 		return nil, ErrBadFormat
 	}
 	remaining := data[len(magic):]
@@ -273,6 +273,10 @@ func parseOpenSSHPrivateKey(data []byte, getpw func() ([]byte, error)) (*Private
 		return nil, fmt.Errorf("ssh: NumKeys must be 1: %d", w.NumKeys)
 	}
 
+	if w.KdfName == "bcrypt" && getpw == nil {
+		return nil, ErrIncorrectPassword
+	}
+
 	var privateKeyBytes []byte
 	var encrypted bool
 
@@ -290,6 +294,9 @@ func parseOpenSSHPrivateKey(data []byte, getpw func() ([]byte, error)) (*Private
 
 		cbc := cipher.NewCBCDecrypter(block, iv)
 		privateKeyBytes = []byte(w.PrivKeyBlock)
+		if len(privateKeyBytes)%aes.BlockSize != 0 {
+			return nil, ErrBadLength
+		}
 		cbc.CryptBlocks(privateKeyBytes, privateKeyBytes)
 
 		encrypted = true
-- 
2.43.0


From bd7f52b672b088db13a96113fb30b90a699e5885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 10/22] fix: don't crash on private keys with bogus salt or
 scrypt parameters

---
 sign/keys.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sign/keys.go b/sign/keys.go
index 228a3ea..3bd2cb2 100644
--- a/sign/keys.go
+++ b/sign/keys.go
@@ -68,6 +68,9 @@ const (
 	_r int = 8
 	_p int = 1
 
+	// upper bound for N*r and r*p of a serialized key (scrypt needs 128x memory)
+	_maxScrypt int = 1 << 25
+
 	// Algorithm used in the encrypted private key
 	sk_algo  = "scrypt-sha256"
 	sig_algo = "sha512-ed25519"
@@ -310,11 +313,20 @@ func (sk *PrivateKey) UnmarshalBinary(b []byte, getpw func() ([]byte, error)) er
 		return fmt.Errorf("unmarshal priv key: can't decode salt: %s", err)
 	}
 
+	// the first few bytes of the salt are also the AEAD nonce
+	if len(salt) < _AEADNonceSize {
+		return fmt.Errorf("unmarshal priv key: salt too small (%d bytes)", len(salt))
+	}
+
 	esk, err := b64(ssk.Esk)
 	if err != nil {
 		return fmt.Errorf("unmarshal priv key: can't decode key: %s", err)
 	}
 
+	if ssk.R < 1 || ssk.P < 1 || ssk.N > _maxScrypt/ssk.R || ssk.P > _maxScrypt/ssk.R {
+		return fmt.Errorf("unmarshal priv key: invalid scrypt parameters")
+	}
+
 	// "32" == Length of AES-256 key
 	key, err := scrypt.Key(pwb[:], salt, ssk.N, ssk.R, ssk.P, 32)
 	if err != nil {
-- 
2.43.0


From a977c16c98c5f4022f0a148ddc4a84b7c60fd207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 11/22] fix: forget the cached curve25519 key when a key object
 is unmarshaled again

---
 sign/keys.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sign/keys.go b/sign/keys.go
index 3bd2cb2..5003a51 100644
--- a/sign/keys.go
+++ b/sign/keys.go
@@ -179,6 +179,7 @@ func makePrivateKeyFromBytes(sk *PrivateKey, buf []byte) error {
 	}
 	sk.Sk = skb
 	sk.pk = pk
+	sk.ck = nil
 	return nil
 }
 
@@ -412,6 +413,7 @@ func makePublicKeyFromBytes(pk *PublicKey, b []byte) error {
 	pk.Pk = make([]byte, 32)
 	pk.hash = pkhash(b)
 	copy(pk.Pk, b)
+	pk.ck = nil
 
 	return nil
 }
-- 
2.43.0


From 68752ee99d0cef046c5d5fdd94e6ea7eef365ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 12/22] fix: reject private keys whose public half doesn't
 belong to them

---
 sign/keys.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sign/keys.go b/sign/keys.go
index 5003a51..7e7fb37 100644
--- a/sign/keys.go
+++ b/sign/keys.go
@@ -171,6 +171,10 @@ func makePrivateKeyFromBytes(sk *PrivateKey, buf []byte) error {
 	copy(skb, buf)
 
 	edsk := Ed.PrivateKey(skb)
+	if !bytes.Equal(edsk, Ed.NewKeyFromSeed(edsk.Seed())) {
+		return fmt.Errorf("private key is malformed (public key mismatch)")
+	}
+
 	edpk := edsk.Public().(Ed.PublicKey)
 
 	pk := &PublicKey{
-- 
2.43.0


From 74f1bfac21148058a4d528bad6fa9a9a1b7670ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 13/22] fix: checksum the contents of files that don't have a
 size (pipes etc.)

---
 sign/iomisc.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sign/iomisc.go b/sign/iomisc.go
index cdc1eb3..c737bd5 100644
--- a/sign/iomisc.go
+++ b/sign/iomisc.go
@@ -19,6 +19,7 @@ import (
 	"github.com/opencoff/go-fio"
 	"github.com/opencoff/go-mmap"
 	"hash"
+	"io"
 	"os"
 )
 
@@ -59,6 +60,13 @@ func fileCksum(fn string, h hash.Hash) ([]byte, error) {
 		return nil, err
 	}
 
+	// pipes, devices and most files in /proc can't be mmap'd
+	if sz == 0 {
+		if sz, err = io.Copy(h, fd); err != nil {
+			return nil, err
+		}
+	}
+
 	var b [8]byte
 	binary.BigEndian.PutUint64(b[:], uint64(sz))
 	h.Write(b[:])
-- 
2.43.0


From 8631c28a80f4673253974a8a66b05995f7958d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 14/22] fix: report errors while writing signatures and
 decrypted output

---
 src/crypt.go |  4 +++-
 src/sign.go  | 13 +++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/crypt.go b/src/crypt.go
index 9de5638..4ccda71 100644
--- a/src/crypt.go
+++ b/src/crypt.go
@@ -343,7 +343,9 @@ func decrypt(args []string) {
 		Die("%s", err)
 	}
 
-	outfd.Close()
+	if err = outfd.Close(); err != nil {
+		Die("%s", err)
+	}
 
 	if test {
 		Warn("Enc file OK")
diff --git a/src/sign.go b/src/sign.go
index f6e92b0..17b0ee5 100644
--- a/src/sign.go
+++ b/src/sign.go
@@ -111,6 +111,15 @@ Options:
 	}
 
 	sigbytes, err := sig.MarshalBinary(fmt.Sprintf("input=%s", fn))
-	fd.Write(sigbytes)
-	fd.Close()
+	if err != nil {
+		Die("%s", err)
+	}
+
+	if _, err = fd.Write(sigbytes); err != nil {
+		Die("%s", err)
+	}
+
+	if err = fd.Close(); err != nil {
+		Die("%s", err)
+	}
 }
-- 
2.43.0


From e6fab502aec76c329ce9830f1ce5b9043c6eec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:57 +0000
Subject: [PATCH 15/22] fix: an input that fails with io.ErrUnexpectedEOF is
 not the end of the input

---
 sign/encrypt.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index a2524a2..b0b4563 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -199,15 +199,20 @@ func (e *Encryptor) Encrypt(rd io.Reader, wr io.WriteCloser) error {
 		return err
 	}
 
-	buf := make([]byte, e.ChunkSize)
+	buf := bytes.NewBuffer(make([]byte, 0, int(e.ChunkSize)+bytes.MinRead))
 
 	var i uint32
 	var eof bool
 	for !eof {
-		n, err := io.ReadAtLeast(rd, buf, int(e.ChunkSize))
+		buf.Reset()
+
+		// NB: io.ReadFull() and io.ReadAtLeast() turn a short input into
+		// io.ErrUnexpectedEOF and we can't tell that apart from a reader
+		// that _failed_ with io.ErrUnexpectedEOF.
+		n, err := io.CopyN(buf, rd, int64(e.ChunkSize))
 		if err != nil {
 			switch err {
-			case io.EOF, io.ErrClosedPipe, io.ErrUnexpectedEOF:
+			case io.EOF, io.ErrClosedPipe:
 				eof = true
 			default:
 				return fmt.Errorf("encrypt: I/O read error: %w", err)
@@ -215,7 +220,7 @@ func (e *Encryptor) Encrypt(rd io.Reader, wr io.WriteCloser) error {
 		}
 
 		if n >= 0 {
-			err = e.encrypt(buf[:n], wr, i, eof)
+			err = e.encrypt(buf.Bytes(), wr, i, eof)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From c599323a924148568678aad148408b44ffdbaf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 16/22] fix: don't restart a decryptor that failed or that has
 a stream reader already

---
 sign/encrypt.go | 12 ++++++++++--
 sign/stream.go  |  9 +++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/sign/encrypt.go b/sign/encrypt.go
index b0b4563..69d2069 100644
--- a/sign/encrypt.go
+++ b/sign/encrypt.go
@@ -390,6 +390,7 @@ type Decryptor struct {
 	auth   bool   // flag set to true if sender signed the key
 	eof    bool
 	stream bool
+	err    error // set when decryption fails; it can't be resumed or restarted
 }
 
 // Create a new decryption context and if 'pk' is given, check that it matches
@@ -551,6 +552,10 @@ func (d *Decryptor) Decrypt(wr io.Writer) error {
 		return ErrDecStarted
 	}
 
+	if d.err != nil {
+		return d.err
+	}
+
 	if d.eof {
 		return io.EOF
 	}
@@ -559,12 +564,14 @@ func (d *Decryptor) Decrypt(wr io.Writer) error {
 	for i = 0; ; i++ {
 		c, eof, err := d.decrypt(i)
 		if err != nil {
+			d.err = err
 			return err
 		}
 		if len(c) > 0 {
 			err = fullwrite(c, wr)
 			if err != nil {
-				return fmt.Errorf("decrypt: %w", err)
+				d.err = fmt.Errorf("decrypt: %w", err)
+				return d.err
 			}
 		}
 
@@ -574,7 +581,8 @@ func (d *Decryptor) Decrypt(wr io.Writer) error {
 		}
 
 		if i+1 == 0 {
-			return ErrTooManyBlocks
+			d.err = ErrTooManyBlocks
+			return d.err
 		}
 	}
 }
diff --git a/sign/stream.go b/sign/stream.go
index 20de685..2e342d9 100644
--- a/sign/stream.go
+++ b/sign/stream.go
@@ -125,10 +125,19 @@ func (d *Decryptor) NewStreamReader() (io.Reader, error) {
 		return nil, ErrNoKey
 	}
 
+	if d.err != nil {
+		return nil, d.err
+	}
+
 	if d.eof {
 		return nil, io.EOF
 	}
 
+	// two readers would share the input, the block# and the I/O buffer
+	if d.stream {
+		return nil, ErrDecStarted
+	}
+
 	d.stream = true
 	return &encReader{
 		buf: make([]byte, d.ChunkSize),
-- 
2.43.0


From 6f78b369ead954eef62f46a9a765b0f9e8280270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:01 +0000
Subject: [PATCH 17/22] fix: don't take a sigtool key whose comment mentions
 OPENSSH PRIVATE KEY for an openssh key

---
 sign/keys.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sign/keys.go b/sign/keys.go
index 7e7fb37..7cacb08 100644
--- a/sign/keys.go
+++ b/sign/keys.go
@@ -25,6 +25,7 @@ import (
 	"crypto/sha256"
 	"crypto/sha512"
 	"encoding/base64"
+	"encoding/pem"
 	"fmt"
 	"io/ioutil"
 	"math/big"
@@ -279,7 +280,8 @@ func (sk *PrivateKey) MarshalBinary(comment string, pw []byte) ([]byte, error) {
 // input byte stream 'b' is an OpenSSH ed25519 key, this function transparently
 // decodes it.
 func (sk *PrivateKey) UnmarshalBinary(b []byte, getpw func() ([]byte, error)) error {
-	if bytes.Index(b, []byte("OPENSSH PRIVATE KEY-")) > 0 {
+	// NB: that text can also occur in the comment of a sigtool key
+	if block, _ := pem.Decode(b); block != nil && block.Type == "OPENSSH PRIVATE KEY" {
 		xk, err := parseSSHPrivateKey(b, getpw)
 		if err != nil {
 			return err
-- 
2.43.0


From 724e2c3105d59865e6934ce459a4fc90f55ebce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:34 +0000
Subject: [PATCH 18/22] fix: loading a key into the result of PublicKey() must
 not change the private key

---
 sign/keys.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sign/keys.go b/sign/keys.go
index 7cacb08..d5af5aa 100644
--- a/sign/keys.go
+++ b/sign/keys.go
@@ -199,7 +199,13 @@ func PrivateKeyFromBytes(buf []byte) (*PrivateKey, error) {
 
 // Given a secret key, return the corresponding Public Key
 func (sk *PrivateKey) PublicKey() *PublicKey {
-	return sk.pk
+	if sk.pk == nil {
+		return nil
+	}
+
+	// NB: the caller may load another key into what we return
+	pk := *sk.pk
+	return &pk
 }
 
 // Convert an Ed25519 Private Key to Curve25519 Private key
-- 
2.43.0


From 83929ad935da4cc589505cc3294e2b05d5afde64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:21 +0000
Subject: [PATCH 19/22] fix: read OpenSSH public keys without a comment or with
 blanks in the comment

---
 sign/ssh.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sign/ssh.go b/sign/ssh.go
index 6b79e22..5147a7b 100644
--- a/sign/ssh.go
+++ b/sign/ssh.go
@@ -57,13 +57,24 @@ func parseSSHPrivateKey(data []byte, getpw func() ([]byte, error)) (*PrivateKey,
 }
 
 func parseSSHPublicKey(in []byte) (*PublicKey, error) {
+	s := strings.TrimSpace(string(in))
+	if strings.Contains(s, "\n") {
+		return nil, ErrBadPublicKey
+	}
+
+	// the comment is optional and can have blanks in it
 	splitter := regexp.MustCompile("[ \\t]+")
-	v := splitter.Split(string(in), -1)
-	if len(v) != 3 {
+	v := splitter.Split(s, 3)
+	if len(v) < 2 || v[0] != ssh.KeyAlgoED25519 {
 		return nil, ErrBadPublicKey
 	}
 
-	pk, err := parseEncPubKey([]byte(v[1]), v[2])
+	var comm string
+	if len(v) > 2 {
+		comm = v[2]
+	}
+
+	pk, err := parseEncPubKey([]byte(v[1]), comm)
 	if err == nil && pk == nil {
 		// valid ssh key; but not a supported algorithm
 		return nil, ErrBadPublicKey
-- 
2.43.0


From 002e1efbd0e4cabdac95f1c54ed5de81852524cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:22 +0000
Subject: [PATCH 20/22] fix: don't take a key inside the quoted options of an
 authorized_keys line for its key

---
 sign/ssh.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sign/ssh.go b/sign/ssh.go
index 5147a7b..4efdbf9 100644
--- a/sign/ssh.go
+++ b/sign/ssh.go
@@ -184,12 +184,15 @@ func ParseAuthorizedKeys(in []byte) ([]*PublicKey, error) {
 			continue
 		}
 
-		if pk, err := parseAuthorizedKey(in[i:]); err == nil {
-			if pk != nil {
-				pka = append(pka, pk)
+		// NB: a blank in quotes is part of the options
+		if bytes.IndexByte(in[:i], '"') == -1 {
+			if pk, err := parseAuthorizedKey(in[i:]); err == nil {
+				if pk != nil {
+					pka = append(pka, pk)
+				}
+				in = rest
+				continue
 			}
-			in = rest
-			continue
 		}
 
 		// No key type recognised. Maybe there's an options field at
-- 
2.43.0


From f0960789ad9d9846dfcf50047914cf2f17998ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:23 +0000
Subject: [PATCH 21/22] fix: refuse OpenSSH private keys with another key's
 public key

---
 sign/ssh.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sign/ssh.go b/sign/ssh.go
index 4efdbf9..d3707a5 100644
--- a/sign/ssh.go
+++ b/sign/ssh.go
@@ -372,10 +372,19 @@ func parseOpenSSHPrivateKey(data []byte, getpw func() ([]byte, error)) (*Private
 		}
 
 		var sk PrivateKey
-		if err = makePrivateKeyFromBytes(&sk, key.Priv); err == nil {
-			return &sk, nil
+		if err = makePrivateKeyFromBytes(&sk, key.Priv); err != nil {
+			return nil, err
 		}
-		return nil, err
+
+		// the file has two more copies of the public key
+		pub := ssh.Marshal(struct {
+			Algo     string
+			KeyBytes []byte
+		}{ssh.KeyAlgoED25519, sk.pk.Pk})
+		if !bytes.Equal(key.Pub, sk.pk.Pk) || w.PubKey != string(pub) {
+			return nil, ErrBadPublicKey
+		}
+		return &sk, nil
 	default:
 		return nil, fmt.Errorf("ssh: unhandled key type: %v", pk1.Keytype)
 	}
-- 
2.43.0


From d84958228d5ddcf1dca54b98bfada16650f054e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:22 +0000
Subject: [PATCH 22/22] fix: encrypt and decrypt with bad options must not exit
 with status 0

---
 src/crypt.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/crypt.go b/src/crypt.go
index 4ccda71..0a46478 100644
--- a/src/crypt.go
+++ b/src/crypt.go
@@ -30,17 +30,15 @@ import (
 
 func encrypt(args []string) {
 	fs := flag.NewFlagSet("encrypt", flag.ExitOnError)
-	fs.Usage = func() {
-		encryptUsage(fs)
-	}
 
 	var outfile string
 	var keyfile string
 	var szstr string = "128k"
 	var envpw string
-	var nopw, force bool
+	var help, nopw, force bool
 	var blksize uint64
 
+	fs.BoolVarP(&help, "help", "h", false, "Show this help and exit")
 	fs.StringVarP(&outfile, "outfile", "o", "", "Write the output to file `F`")
 	fs.StringVarP(&keyfile, "sign", "s", "", "Sign using private key `S`")
 	fs.BoolVarP(&nopw, "no-password", "", false, "Don't ask for passphrase to decrypt the private key")
@@ -53,6 +51,10 @@ func encrypt(args []string) {
 		Die("%s", err)
 	}
 
+	if help {
+		encryptUsage(fs)
+	}
+
 	if blksize, err = utils.ParseSize(szstr); err != nil {
 		Die("%s", err)
 	}
@@ -215,15 +217,13 @@ var _ io.WriteCloser = &nullWriter{}
 // sigtool decrypt a.key [file] [-o output]
 func decrypt(args []string) {
 	fs := flag.NewFlagSet("decrypt", flag.ExitOnError)
-	fs.Usage = func() {
-		decryptUsage(fs)
-	}
 
 	var envpw string
 	var outfile string
 	var pubkey string
-	var nopw, test, force bool
+	var help, nopw, test, force bool
 
+	fs.BoolVarP(&help, "help", "h", false, "Show this help and exit")
 	fs.StringVarP(&outfile, "outfile", "o", "", "Write the output to file `F`")
 	fs.BoolVarP(&nopw, "no-password", "", false, "Don't ask for passphrase to decrypt the private key")
 	fs.StringVarP(&envpw, "env-password", "E", "", "Use passphrase from environment variable `E`")
@@ -236,6 +236,10 @@ func decrypt(args []string) {
 		Die("%s", err)
 	}
 
+	if help {
+		decryptUsage(fs)
+	}
+
 	args = fs.Args()
 	if len(args) < 1 {
 		Die("Insufficient args. Try '%s --help'", os.Args[0])
-- 
2.43.0

