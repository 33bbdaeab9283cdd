import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
E='sign/encrypt.go';S='sign/stream.go';K='sign/keys.go';G='sign/sign.go'
p('C01','Decrypting an encrypted stream returns exactly the original plaintext',
 "For every plaintext, every chunk size, with or without a sender identity, a stream produced by batch encryption to a set of recipients and decrypted with the private key of any one of them (giving the sender's public key when there is a sender) succeeds and yields exactly the original bytes, in order and nothing else. Input beyond the capacity of the format (2^32 chunks, 1 MiB of header) is refused by the encryptor with an error.",
 ['inputs','configurations'],"all plaintext lengths (0, multiples of the chunk size, everything between), all chunk sizes 1..2^30 and out-of-range requests, any number of recipients and any position of the decrypting one, sender or none; up to the documented capacity (2^32 chunks, 1MB header)",
 "Tests sample a few fixed sizes and chunk sizes with one RNG draw each; the loop has to be right for every chunk count, including the empty and exact-multiple ones.",
 [E],[('chunk loop of Encrypt','sign/encrypt.go:Encrypt/encrypt'),('chunk loop of Decrypt','sign/encrypt.go:Decrypt/decrypt'),('wrap/unwrap of the root key','sign/encrypt.go:wrapKey/unwrapKey')],
 ['bytes written by Encryptor.Encrypt','bytes written by Decryptor.Decrypt and its error'])
p('C02','Streaming interface is equivalent to the batch interface',
 "For every plaintext and every way of splitting it into Write calls, the streaming encryptor produces a stream that decrypts (in batch or streaming mode, with any sequence of read sizes) to exactly that plaintext followed by end-of-file; a batch-encrypted stream read in streaming mode likewise. Every chunk but the last holds exactly one full chunk of plaintext, the last one written by a streaming encryptor is empty only if the whole plaintext is, nothing is lost or emitted twice, and Write reports the number of bytes it took.",
 ['inputs','histories'],"all sequences of Write sizes (including 0, exact chunk multiples and writes spanning many chunks), all sequences of Read sizes, all plaintexts and chunk sizes",
 "Tests use two chunk sizes and equal-sized writes; the buffering state machine has unboundedly many histories.",
 [S,E],[('write buffering','sign/stream.go:encWriter.Write/Close'),('read buffering','sign/stream.go:encReader.Read')],
 ['bytes reaching the underlying writer','bytes returned by Read, io.EOF'],
 [('n','bytes buffered for the current chunk','sign/stream.go:encWriter'),('unread','decrypted bytes not yet returned','sign/stream.go:encReader')])
p('C03','Tampering with an encrypted body is always detected',
 "Decryption reports success only if the input is a complete, unmodified sequence of chunks in their original order up to and including the one marked last, followed by its trailer; and every plaintext byte it hands out before that was authenticated under the file's key at exactly that chunk position, length and end marker. Truncating, reordering, duplicating, splicing or altering chunks, or adding any before the end, makes it fail. (Bytes after the trailer are not part of the stream and are not read; the content of an anonymous file's trailer is filler and carries no meaning.)",
 ['inputs'],"all byte strings offered as the encrypted body (any truncation, permutation, edit or insertion), all chunk counts",
 "The corruption test flips random bytes of one file; it never truncates at chunk boundaries or builds chunks by hand.",
 [E,S],[('nonce = block number, AD = length and EOF mark','sign/encrypt.go:decrypt'),('trailer handling','sign/encrypt.go:processTrailer')],
 ['error of Decrypt / Read','bytes handed out'])
p('C04','Header is authenticated and validated before it is used',
 "Opening an encrypted stream succeeds only if magic, version and declared header length are valid, the header checksum covers every header byte, and the decoded chunk size, salt and key list are within limits; anything else is an error. The keys that decrypt the body depend on every header byte, so a header edit with a recomputed checksum still cannot decrypt the body.",
 ['inputs'],"all byte strings offered as an encrypted file (any magic, version, length, header content and checksum)",
 "Tests corrupt random header bytes of one file without recomputing the checksum; they do not vary lengths, versions or field sizes.",
 [E],[('header checks','sign/encrypt.go:NewDecryptor'),('key expansion salted with the header checksum','sign/encrypt.go:start/SetPrivateKey')],
 ['error of NewDecryptor','error of Decrypt'])
p('C05','Sender identity is authenticated exactly when asked for and present',
 "When a sender public key is supplied, decryption is set up only if the holder of exactly that key signed this file's root key, ephemeral key and salt, and it completes only if that key also signed the message digest in the trailer; an anonymous file or one from another sender is refused. A signed file without a supplied sender key is refused too, and the sender is reported as authenticated only after a successful check; after a refused setup no plaintext can be obtained.",
 ['inputs','histories'],"all combinations of signed/anonymous files, right/wrong/missing sender key, all header and trailer contents, and decrypt attempts after failures",
 "Tests check one right and one wrong sender; none looks at the trailer, anonymous files with verification requested, or use after failure.",
 [E],[('sender signature','sign/encrypt.go:addSenderSig/verifySender'),('trailer signature','sign/encrypt.go:writeTrailer/processTrailer')],
 ['error of SetPrivateKey and Decrypt','AuthenticatedSender()'])
p('C06','No data key and nonce pair is ever used twice',
 "Over the entire life of an encryptor, whatever sequence of batch, streaming and recipient calls is made (including repeated and failing ones), no two AEAD seal operations use the same key and nonce, however long the input is; in particular the chunk counter never wraps and an encryptor cannot be used for a second message.",
 ['histories','inputs'],"all call histories of one encryptor, all plaintext lengths including more than 2^32 chunks, all write failures",
 "Nonces are not observable in tests and a wrap-around needs 2^32 chunks; only an argument over all iterations covers it.",
 [E,S],[('block number in the nonce','sign/encrypt.go:encrypt'),('counter in batch and stream mode','sign/encrypt.go:Encrypt, sign/stream.go:Write'),('single use','sign/encrypt.go:Encrypt/NewStreamWriter')],
 ['nonce and key of every Seal call'])
p('C07','Only the private key of a listed recipient unlocks a file',
 "The root key is wrapped once per added recipient under a key derived from the ephemeral secret and that recipient's public key with fresh per-recipient randomness, bound to that recipient's public key; setting a private key succeeds for each listed recipient at any position and yields the root key, and reports the wrong-key error for any other key. The root key and ephemeral secret never appear in the output in any other form.",
 ['inputs','configurations'],"all recipient sets and positions, all private keys, duplicates included",
 "Tests use up to four recipients once each; a wrapping that forgets an input or a loop that stops early passes them.",
 [E],[('wrap','sign/encrypt.go:wrapKey'),('unwrap and search','sign/encrypt.go:unwrapKey/SetPrivateKey')],
 ['contents of wrapped keys','error of SetPrivateKey'])
p('C08','Hostile encrypted input never crashes the decryptor',
 "For every byte string offered as an encrypted file, with any valid private key and optional sender key, every sequence of decryptor calls returns normally with data or an error: it does not panic and does not index outside its buffers, whatever lengths, counts and sizes the input declares.",
 ['inputs','histories'],"all byte strings as input, all orders of the decryptor's public calls including use after errors",
 "Tests only decrypt files the encryptor made, with random byte flips that the checksum catches first.",
 [E,S,'internal/pb/hdr_vtproto.pb.go'],[('length checks','sign/encrypt.go:NewDecryptor/decrypt'),('header decoding','internal/pb/hdr_vtproto.pb.go:UnmarshalVT')],
 ['panics'])
p('C09','Malformed key and signature files never crash the parsers',
 "For every byte string offered as a private key, public key, signature or authorized_keys file or as a key given on the command line, with any password or password callback (or none), parsing returns a usable object or an error and never panics; on success the object returned is non-nil, and signing and verifying with it does not panic either.",
 ['inputs'],"all byte strings for every parser, all passwords, absent password callback",
 "Tests parse only files the tool or ssh-keygen wrote.",
 [K,G,'sign/ssh.go'],[('YAML keys','sign/keys.go:UnmarshalBinary'),('OpenSSH keys','sign/ssh.go'),('signatures','sign/sign.go:makeSignature')],
 ['panics','nil results with nil error'])
p('C10','Header encoding and decoding are exact inverses',
 "Encoding a header yields exactly as many bytes as its size function says, in protobuf wire format, and decoding them yields the same chunk size, salt, ephemeral key, sender field and list of wrapped keys in the same order, for all field contents and any number of keys; decoding any byte string stays within it and either fails or returns fields taken from it.",
 ['inputs'],"all chunk sizes, field contents and lengths, any number of wrapped keys; all byte strings for decoding",
 "Tests only produce 32-byte fields and a handful of keys; varint length boundaries and multi-byte lengths are not reached.",
 ['internal/pb/hdr_vtproto.pb.go','internal/pb/helpers.go'],[('marshal','internal/pb/hdr_vtproto.pb.go:MarshalToSizedBufferVT'),('size','internal/pb/hdr_vtproto.pb.go:SizeVT'),('unmarshal','internal/pb/hdr_vtproto.pb.go:UnmarshalVT')],
 ['encoded bytes','decoded fields'])
p('C11','A signature verifies exactly for the content and key that made it',
 "A signature over a message or file verifies with the signer's public key for that same content, and verification succeeds only when the Ed25519 check passes over the domain-separated digest of that content; for files the digest covers every byte and the length of the file. Signing never depends on the comment or file name, and a file that cannot be read yields an error, never a verified result.",
 ['inputs'],"all file contents and sizes (empty, huge, pipes), all messages, keys and signatures",
 "Tests sign a few random buffers below 8k and flip one byte.",
 [G,'sign/iomisc.go'],[('message digest','sign/sign.go:SignMessage/VerifyMessage'),('file digest','sign/iomisc.go:fileCksum')],
 ['result of VerifyMessage/VerifyFile'])
p('C12','Keys and signatures survive serialization and bad passwords are refused',
 "Serializing a private key under a password and loading it with the same password gives back the same key, with any other password or any altered ciphertext loading fails with an error; public keys and signatures likewise read back identical to what was written. The secret key appears in the serialized form only encrypted under a key derived from the password and a fresh salt.",
 ['inputs'],"all keys, passwords (including empty and long ones), comments, and edits of the serialized form",
 "Tests use one password and one key.",
 [K,G],[('private key','sign/keys.go:MarshalBinary/UnmarshalBinary'),('public key','sign/keys.go:MarshalBinary/UnmarshalBinary'),('signature','sign/sign.go:MarshalBinary/makeSignature')],
 ['loaded key equals original','error on wrong password'])
p('C13','Key objects stay self-consistent through any history of calls',
 "Whatever calls are made on a private or public key object (including loading another key into it), its public half, key hash and derived encryption keys always belong to the key bytes it currently holds: the derived encryption secret and public point are a matching pair, the hash is the hash of the public key, and signature-to-key matching is true exactly when the signature was made by that key (up to hash collisions).",
 ['histories','inputs'],"all call histories on key objects, all key values",
 "Derived values are cached in the object; tests never reuse an object for another key.",
 [K,G],[('cached curve keys','sign/keys.go:ToCurve25519SK/ToCurve25519PK'),('hash','sign/keys.go:pkhash'),('match','sign/sign.go:IsPKMatch')],
 ['values returned by the accessors'],
 [('ck','cached Curve25519 key','sign/keys.go'),('hash','cached key hash','sign/keys.go')])
p('C14','Key and signature files are written whole, with the right mode, or not at all',
 "Saving a private key, public key or signature either leaves the complete serialized content under the requested name (private keys readable by the owner only) or reports an error and leaves whatever was there untouched, whichever step fails; an existing file is replaced only when overwriting was requested.",
 ['fault_sequences','configurations'],"every failing step of the write, existing or absent target, overwrite flag on or off, any content",
 "Tests write to healthy temp directories only and never inject a failing write, sync or rename.",
 ['sign/iomisc.go',K,G],[('safe file','sign/iomisc.go:writeFile')],
 ['content and mode of the target file','error returned'])
p('C15','OpenSSH keys and authorized_keys files are read faithfully',
 "From an OpenSSH ed25519 private key (plain, or encrypted with aes256-ctr/cbc) or a public key (with or without a comment) the tool obtains exactly the key stored in it, and refuses malformed, truncated, mismatched (any two of the copies of the key in the file differ) or other-algorithm keys; parsing authorized_keys returns exactly the ed25519 keys with their comments, in order, skipping comments, blank lines and other algorithms, with LF or CRLF line ends and with options.",
 ['inputs'],"all OpenSSH key files and authorized_keys files",
 "Tests have no ssh inputs; the script uses a single freshly generated ssh key.",
 ['sign/ssh.go'],[('private key','sign/ssh.go:parseOpenSSHPrivateKey'),('public key','sign/ssh.go:parseEncPubKey'),('authorized_keys','sign/ssh.go:ParseAuthorizedKeys')],
 ['keys and comments returned'])
p('C16','Command line tool exits 0 only if it did what was asked',
 "The tool exits with status 0 only when the requested operation completed: verify only if the signature is valid for that file and key, sign/encrypt/decrypt/generate only if all the output was produced from the inputs named (for encryption: every recipient named was added) and committed without an error, help and version requests aside; every failure ends with a non-zero status and leaves no partially written output file, and existing outputs are replaced only with the overwrite flag.",
 ['configurations','fault_sequences'],"all command lines, all outcomes of every file and key operation the tool performs",
 "The test script covers the success paths and a wrong key; error returns of the individual steps are never exercised.",
 ['src/sigtool.go','src/crypt.go','src/sign.go','src/verify.go','src/gen.go','src/die.go'],[('exit paths','src/die.go'),('commands','src/*.go')],
 ['exit status','output files'])
p('C17','I/O errors are never swallowed by encryption or decryption',
 "If the reader or the writer fails at any point with an error, the encryption or decryption call returns an error; if a call reports success, every output byte reached the writer, even when the writer accepts only part of a buffer at a time, and a failed stream stays failed. (io.EOF and io.ErrClosedPipe from the input of Encrypt mark its end and are not failures.)",
 ['fault_sequences','inputs'],"every position of a read or write failure, every pattern of short reads and short writes, batch and streaming",
 "Tests use in-memory readers and writers that never fail and never write short.",
 [E,S],[('full write','sign/encrypt.go:fullwrite'),('read loop','sign/encrypt.go:Encrypt/decrypt'),('sticky stream errors','sign/stream.go')],
 ['error returned','bytes that reached the writer'])
p('C18','Calls out of order are refused without side effects',
 "Recipients can be added only before encryption starts, and the header lists exactly the recipients added before that; closing a stream makes later writes and closes fail; batch and streaming use of one encryptor or decryptor do not mix; using a decryptor before a key was accepted fails with the no-key error, after the end it reports end-of-file. Refused calls change neither the output nor the state.",
 ['histories'],"all sequences of public calls on encryptors, decryptors and streams",
 "Tests call every method once in the intended order.",
 [E,S],[('started/stream/eof flags','sign/encrypt.go'),('sticky stream error','sign/stream.go')],
 ['errors returned','bytes written after a refused call'])
p('C19','Every file, key and wrap gets its own fresh randomness',
 "Every encryptor draws its root key, salt and ephemeral key, every wrapped key its nonce, every anonymous trailer its filler, and every generated or serialized private key its seed or salt, in full length from the system's random source at that time; none is constant, shared, truncated or derived from another.",
 ['histories','inputs'],"all encryptors, recipients and keys, in any order of creation",
 "Tests cannot see whether bytes came from the random source; a constant salt or reused key decrypts fine.",
 [E,K,'sign/rand.go'],[('random source','sign/rand.go'),('ephemeral key','sign/encrypt.go:newSender')],
 ['provenance of key, salt, ephemeral secret and nonces'])
p('C20','Encrypted output has exactly the documented version 3 format',
 "Every encrypted stream consists of the magic, version 3, big-endian header length, header, its SHA-256, then per chunk a big-endian length (top bit set on the last one only) and the AES-GCM ciphertext under the documented HKDF-derived key and counter nonce with the length as additional data, then a 64-byte trailer that is the sender's signature of the HMAC of all chunks if there is a sender; decryption accepts exactly that, so files remain readable across builds.",
 ['inputs','configurations'],"all plaintexts, chunk sizes, recipients and senders",
 "Tests only check that encrypt and decrypt agree with each other, so a change made to both sides goes unnoticed.",
 [E],[('header','sign/encrypt.go:start/NewDecryptor'),('key schedule','sign/encrypt.go:expand'),('chunks','sign/encrypt.go:encrypt/decrypt'),('trailer','sign/encrypt.go:writeTrailer/processTrailer')],
 ['bytes of the encrypted stream'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P), max(len(x['title']) for x in P))
