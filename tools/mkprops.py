#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the property list changes)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Plaintext phrases have exactly the documented bit layout",
 "Encoding a seed and creation offset as a plaintext phrase yields exactly 14 words whose 12-bit wordlist positions, concatenated most significant first, are version 0 (4 bits), the seed (128 bits), the offset (31 bits) and the low 5 bits of the CRC-32 of the big-endian 21-byte payload. An offset that does not fit in 31 bits is refused with an error instead of being truncated, and encoding never changes the seed.",
 ["inputs"], "every 128-bit seed and every 32-bit creation offset",
 "2^159 seed/offset pairs; the tests encode one seed at one creation time and only look at whether it decodes again.",
 ["encoding.go", "bit_buffer.go", "mnemonic/encode.go", "version.go"],
 [("EncodeMnemonicPlaintext", "encoding.go"), ("encodeMnemonic", "encoding.go"), ("bitBuffer.AppendTrailingBits", "bit_buffer.go"), ("EncodeToIndices", "mnemonic/encode.go")],
 ["EncodeMnemonicPlaintext", "Mnemonikey.EncodeMnemonicPlaintext"])

prop("C02", "A plaintext phrase decodes back to the seed and offset it was made from",
 "Decoding a plaintext phrase returns version 0, not encrypted, the original creation offset and creation time, and the original seed, in whatever letter case the words are given. Asking such a phrase to decrypt with any password also returns the original seed.",
 ["inputs"], "every 128-bit seed, every 31-bit offset, every letter casing of the words",
 "The tests round-trip one seed at one creation time; a field whose high bits are dropped or mis-shifted only shows for other values.",
 ["encoding.go", "recovery.go", "bit_buffer.go", "mnemonic/encode.go", "mnemonic/decode.go"],
 [("EncodeMnemonicPlaintext", "encoding.go"), ("DecodeMnemonic", "recovery.go"), ("DecodedMnemonic.Seed", "recovery.go")],
 ["DecodeMnemonic", "DecodedMnemonic.Seed", "DecodedMnemonic.DecryptSeed", "DecodedMnemonic.Creation"])

prop("C03", "Encrypted phrases have exactly the documented layout and key derivation",
 "Encoding a seed with a non-empty password yields exactly 16 words that concatenate version 1, the AES-128 encryption of the 16-byte seed, the 19-bit salt, 5 verification bits, the 31-bit offset and the 5-bit CRC-32 checksum, where cipher key and verification bits come from 17 bytes of Argon2id (time 4, 512 MiB, 2 threads) over the password and the 7-byte salt||offset. An empty password or an offset wider than 31 bits is refused with an error.",
 ["inputs"], "every seed, every 32-bit offset, every password of any length and content, every salt the random source can produce",
 "The tests use one password and a random salt and only check that the phrase decrypts again, so a consistent change of layout or of the key derivation goes unseen.",
 ["encoding.go", "bit_buffer.go", "derive.go", "parameters.go"],
 [("EncodeMnemonicEncrypted", "encoding.go"), ("encodeMnemonic", "encoding.go")],
 ["EncodeMnemonicEncrypted"])

prop("C04", "An encrypted phrase decrypts to its seed with the password that made it",
 "Decoding an encrypted phrase reports version 1, encrypted, and the original creation offset, and decrypting it with the password it was made with always succeeds and returns the original seed. This holds for every salt the random source can yield and any letter casing of the words.",
 ["inputs"], "every seed, offset, non-empty password and salt",
 "The tests decrypt one seed/password pair under a handful of random salts.",
 ["encoding.go", "recovery.go", "bit_buffer.go"],
 [("EncodeMnemonicEncrypted", "encoding.go"), ("DecodeMnemonic", "recovery.go"), ("DecodedMnemonic.DecryptSeed", "recovery.go")],
 ["DecodedMnemonic.DecryptSeed", "RecoverEncrypted"])

prop("C05", "Decryption yields a seed only when all five verification bits match",
 "Decrypting an encrypted phrase succeeds exactly when the low five bits of the seventeenth Argon2id byte for the given password equal the phrase's verification bits, and otherwise returns the decryption error and no seed. When it succeeds the seed is the AES-128 decryption of the phrase's cipher block under that password's key, and an encrypted phrase never yields a seed without a password check.",
 ["inputs"], "every encrypted phrase (every cipher block, salt, verification bits, offset) and every password",
 "The tests try a single wrong password; a check that compares fewer bits, or compares the wrong ones, still rejects most wrong passwords.",
 ["recovery.go", "bit_buffer.go"],
 [("DecodedMnemonic.DecryptSeed", "recovery.go"), ("DecodedMnemonic.Seed", "recovery.go")],
 ["DecodedMnemonic.DecryptSeed", "DecodedMnemonic.Seed", "RecoverPlaintext", "RecoverEncrypted"])

prop("C06", "The decoder accepts exactly the well-formed phrases and never panics",
 "For any list of strings, decoding succeeds if and only if every string is a wordlist word (ignoring case), the version in the first word is supported, the word count is the one for that version, and the five checksum bits match the CRC-32 of the preceding payload. In every other case it returns an error and no decoded phrase, and it never panics. A version number reports era 0 and its word count when supported (0 with 14 words, 1 with 16), and era -1 with no words otherwise.",
 ["inputs"], "every list of strings of any length",
 "The tests corrupt one word of one phrase; they never supply wrong counts, unknown words, unsupported versions or a phrase whose checksum differs in a single bit.",
 ["recovery.go", "mnemonic/decode.go", "version.go", "bit_buffer.go"],
 [("DecodeMnemonic", "recovery.go"), ("ParseMnemonicVersion", "recovery.go"), ("DecodeWords", "mnemonic/decode.go"), ("DecodeIndices", "mnemonic/decode.go")],
 ["DecodeMnemonic", "ParseMnemonicVersion"])

prop("C07", "Decoding loses nothing: re-encoding an accepted phrase gives the same words",
 "For every phrase the decoder accepts, the version, creation offset and seed it reports are exactly the corresponding bit fields of the words. Re-encoding the seed and offset of an accepted plaintext phrase reproduces the same words in lower case, so no two different phrases decode to the same content.",
 ["inputs"], "every accepted phrase of either version",
 "The tests only decode phrases the encoder made from a single seed.",
 ["recovery.go", "encoding.go", "bit_buffer.go", "mnemonic/decode.go", "mnemonic/encode.go"],
 [("DecodeMnemonic", "recovery.go"), ("EncodeMnemonicPlaintext", "encoding.go")],
 ["DecodeMnemonic", "EncodeMnemonicPlaintext"])

prop("C08", "Seeds are 128-bit, immutable, and use all of the supplied randomness",
 "Constructing a seed succeeds exactly for a supported era and an integer from 0 to 2^128-1; its byte form is always the 16-byte big-endian form of that integer. Changing the integer passed in, or the integer or bytes handed out, never changes the seed. A generated seed is exactly the next 16 bytes of the random source, and a failing source is reported as an error.",
 ["inputs", "histories"], "every integer including negative and oversized ones, every era, every random source, every later mutation by the caller",
 "The tests generate one seed from a fixed stream and never build one from an integer, read it back, or mutate what it was built from.",
 ["seed.go", "version.go"],
 [("NewSeed", "seed.go"), ("Seed.Bytes", "seed.go"), ("Seed.Int", "seed.go"), ("GenerateSeed", "seed.go")],
 ["NewSeed", "Seed.Bytes", "Seed.Int", "GenerateSeed"])

prop("C09", "Every private key is derived from seed and creation time as specified",
 "The root key is 32 bytes of Argon2id (time 4, 512 MiB, 2 threads) over the 16-byte seed salted with the big-endian 32-bit creation time; the master key is HKDF-Expand-SHA256 of it under \"mnemonikey master key\", and each subkey under \"mnemonikey TYPE subkey\" followed by that type's own 16-bit big-endian index. Nothing else (name, email, TTL, other indices, which subkeys are requested, sub-second time) influences any private key.",
 ["inputs", "configurations"], "every seed, accepted creation time, index triple, subkey selection, name, email and TTL",
 "The tests pin two fingerprints for one seed at index 0 and 1 of one subkey type; index bytes above 255, the other types' indices and the interaction with options are never exercised.",
 ["derive.go", "mnemonikey.go", "key_options.go", "seed.go"],
 [("derivePGPKeySet", "derive.go"), ("keyExpandInfoSubkey", "derive.go"), ("hkdfExpand", "derive.go")],
 ["New", "Mnemonikey.EncodePGP", "Mnemonikey.Fingerprint", "Mnemonikey.SubkeyFingerprint"])

prop("C10", "Creation times are accepted exactly in range and kept to the whole second",
 "A key can be created exactly for times from 2023-01-01T00:00:00Z through 2^31-1 seconds later, and a time outside that range is refused with the matching too-early or too-late error. The key's creation time is the given time rounded down to a whole second, it appears unchanged in the exported key, and the phrase's creation offset is its distance in seconds from the epoch.",
 ["inputs"], "every time with nanosecond resolution, in any location",
 "The tests create keys at two times, both in the first years of the 68-year range and on a whole second.",
 ["mnemonikey.go", "parameters.go", "recovery.go", "derive.go"],
 [("New", "mnemonikey.go"), ("creationOffset", "mnemonikey.go"), ("MaxCreationTime", "parameters.go"), ("DecodedMnemonic.Creation", "recovery.go")],
 ["New", "Mnemonikey.CreatedAt", "DecodedMnemonic.Creation"])

prop("C11", "Recovery from a phrase rebuilds the identical key set",
 "For any accepted seed, creation time and options, recovering from the key's own plaintext phrase, or from its encrypted phrase with the right password, and with the same options, gives a key whose creation time, expiry, user ID, subkey types, fingerprints and unencrypted export are identical to the original's, byte for byte. Recovering a plaintext phrase never needs a password and an encrypted phrase cannot be recovered as plaintext.",
 ["inputs", "configurations"], "every seed, creation time, option set, password and salt",
 "The tests recover one key with one option set and compare two fingerprints.",
 ["mnemonikey.go", "recovery.go", "encoding.go", "derive.go", "pgp/key_set.go"],
 [("RecoverPlaintext", "recovery.go"), ("RecoverEncrypted", "recovery.go"), ("New", "mnemonikey.go")],
 ["RecoverPlaintext", "RecoverEncrypted", "Mnemonikey.EncodePGP"])

prop("C12", "Public key packets and fingerprints follow OpenPGP V4 for every key",
 "Every exported public part is version 4, the big-endian 32-bit creation time, the algorithm (22 for EdDSA keys, 18 for ECDH), the length-prefixed curve OID, the point as an MPI with the 0x40 prefix, and for ECDH the KDF parameters (SHA-256, AES-128). A key's fingerprint is the SHA-1 of 0x99, the 16-bit length and that public part.",
 ["inputs"], "every key seed and every creation time that fits in 32 bits",
 "The tests compare three fingerprints of keys from one seed.",
 ["pgp/ecc_key.go", "pgp/mpi.go", "pgp/master_key.go", "pgp/ed25519_subkey.go", "pgp/encryption_subkey.go", "pgp/constants.go"],
 [("ellipticCurveKey.encodePublic", "pgp/ecc_key.go"), ("FingerprintV4", "pgp/ecc_key.go"), ("EncodeMPI", "pgp/mpi.go")],
 ["ED25519MasterKey.EncodePublicPacket", "ED25519Subkey.EncodePublicSubkeyPacket", "Curve25519Subkey.EncodePublicSubkeyPacket", "FingerprintV4"])

prop("C13", "Unencrypted secret key packets carry the right secret and checksum",
 "Without a password, a secret key packet is the public part, a zero usage byte, the secret as a minimal big-endian MPI and the 16-bit sum of the MPI's bytes. The secret is the 32-byte seed for EdDSA keys, and the clamped, byte-reversed seed for the ECDH key, also when it has leading zero bytes.",
 ["inputs"], "every 32-byte key seed, in particular those whose secret starts with zero bits or bytes",
 "The tests import keys from one seed; secrets with leading zero bytes occur with probability 1/256 and checksum carries differ per key.",
 ["pgp/ecc_key.go", "pgp/mpi.go", "pgp/encryption_subkey.go"],
 [("ellipticCurveKey.encodePrivate", "pgp/ecc_key.go"), ("EncodeMPI", "pgp/mpi.go"), ("checksumMPI", "pgp/mpi.go"), ("reverse", "pgp/encryption_subkey.go")],
 ["EncodePrivatePacket", "EncodeMPI"])

prop("C14", "Password-protected secret packets decrypt to the same secret",
 "With a non-empty password every secret key packet carries S2K usage 254 with AES-256, iterated-and-salted SHA-256 at count 255, an 8-byte salt and 16-byte IV from the system random source, and the CFB encryption of the secret's MPI followed by the SHA-1 of that MPI, under the key an OpenPGP reader derives from salt and password. No unencrypted secret is exported in that case.",
 ["inputs"], "every password of any length, every secret, every salt and IV",
 "No test exports a key with a password at all.",
 ["pgp/s2k.go", "pgp/ecc_key.go", "pgp/key_set.go"],
 [("EncryptS2K", "pgp/s2k.go"), ("stringToKey", "pgp/s2k.go"), ("s2kCountDecode", "pgp/s2k.go"), ("encodePrivate", "pgp/ecc_key.go")],
 ["EncryptS2K", "EncodePrivatePacket"])

prop("C15", "Self-certification and binding signatures commit to the right data",
 "The self-certification (type 0x13) signs the master public part and the user ID, and each binding signature (type 0x18) signs the master and subkey public parts, over SHA-256 with the V4 trailer, made by the master key at the key's creation time. Hashed subpackets start with issuer fingerprint and signature time followed by key flags and expiry, the unhashed area carries the issuer key ID, the two hash-preview bytes are the digest's first two, and R and S are MPIs of the EdDSA signature halves. The self-certification also states ciphers 9,8,7,2, hashes 10,9,8,11,2, compression 2,3,1, MDC support and key-server no-modify.",
 ["inputs", "configurations"], "every key pair, user ID of any length, creation time and expiry",
 "The tests rely on gpg importing one key set and never look at signature contents, creation times or preferences.",
 ["pgp/master_key.go", "pgp/sign.go", "pgp/signature.go"],
 [("SelfCertify", "pgp/master_key.go"), ("BindSubkey", "pgp/master_key.go"), ("Sign", "pgp/sign.go"), ("Signature.Encode", "pgp/signature.go")],
 ["SelfCertify", "BindSubkey", "Sign", "Signature.Encode"])

prop("C16", "Only the signing subkey is cross-certified, and key flags match purpose",
 "The master key is flagged certify, the encryption subkey encrypt-communications and encrypt-storage, the authentication subkey authenticate and the signing subkey sign, and nothing more. The signing subkey's binding signature, and no other, embeds in its unhashed area a type 0x19 signature by the subkey over the same master and subkey public parts.",
 ["inputs", "configurations"], "every key set and subkey selection",
 "The tests only sign and encrypt through gpg with one key; a superfluous flag or a wrong embedded signature type is not observed.",
 ["pgp/master_key.go", "pgp/key_set.go", "pgp/constants.go"],
 [("BindSubkey", "pgp/master_key.go"), ("encodeSigningSubkeyPackets", "pgp/key_set.go")],
 ["KeySet.EncodePackets"])

prop("C17", "The full export contains every selected key exactly once, properly bound",
 "A full export is the master secret key packet, the user ID packet, the self-certification, and then for each selected subkey its secret packet immediately followed by its own binding signature, in an order fixed by the master key alone; nothing else. Without a password the export is a deterministic function of the key set, and with one every secret packet in it is password-protected.",
 ["inputs", "configurations"], "every key set, every subset of subkeys, with and without password",
 "The tests export one key set with two subkeys and only ask gpg whether the master fingerprint arrived.",
 ["pgp/key_set.go", "mnemonikey.go"],
 [("KeySet.EncodePackets", "pgp/key_set.go"), ("encodeAllSubkeyPackets", "pgp/key_set.go")],
 ["Mnemonikey.EncodePGP", "Mnemonikey.EncodePGPArmor"])

prop("C18", "A subkey-only export never contains the master private key",
 "A subkey-only export starts with a GNU-dummy stub holding only the master public key, then the user ID, the self-certification exactly when requested, and the same subkey packets and bindings as the full export. No byte of it is computed from the master private key other than signatures, the public key and the subkey order.",
 ["inputs", "configurations"], "every key set, every subset of subkeys, with and without password and self-certification",
 "No test uses the subkey-only export.",
 ["pgp/key_set.go", "pgp/ecc_key.go", "mnemonikey.go"],
 [("KeySet.EncodeSubkeyPackets", "pgp/key_set.go"), ("encodePrivateDummy", "pgp/ecc_key.go")],
 ["Mnemonikey.EncodeSubkeysPGP", "Mnemonikey.EncodeSubkeysPGPArmor"])

prop("C19", "Expiry is exactly the requested lifetime on the master key and every subkey",
 "Without a TTL no signature carries an expiry and the key reports none; with a TTL of at least one second the key's expiry is its creation time plus the TTL in whole seconds, and the self-certification and every subkey binding carry exactly that many seconds. A negative TTL, or one too long or too short for the format to express, is refused with an error and never silently changed.",
 ["inputs"], "every TTL expressible as a duration, every creation time, every subkey selection",
 "No test sets a TTL.",
 ["derive.go", "mnemonikey.go", "pgp/master_key.go"],
 [("derivePGPKeySet", "derive.go"), ("New", "mnemonikey.go"), ("SelfCertify", "pgp/master_key.go"), ("BindSubkey", "pgp/master_key.go")],
 ["New", "Mnemonikey.Expiry", "Mnemonikey.EncodePGP"])

prop("C20", "Packet and subpacket framing is correct for every body length",
 "A packet is the byte 0xC0 with its tag, the new-format OpenPGP body length, and the body unchanged, where lengths up to 191 take one byte, up to 8383 two bytes and larger ones 0xFF with four bytes. A subpacket is framed the same way over its type byte and body, and a subpacket area is the 16-bit total length followed by the subpackets in order.",
 ["inputs"], "every tag and every body length from 0 to 2^32-1",
 "Packets in the tests have a handful of lengths, none of them at a boundary of the length encoding and none above 8383.",
 ["pgp/packet.go", "pgp/signature.go", "pgp/user_id.go"],
 [("EncodePacket", "pgp/packet.go"), ("packetLengthEncode", "pgp/packet.go"), ("Subpacket.Encode", "pgp/signature.go"), ("encodeSubpackets", "pgp/signature.go")],
 ["EncodePacket", "Subpacket.Encode", "UserID.EncodePacket"])

prop("C21", "The user ID is built from name and email exactly as specified",
 "The user ID is the name alone when there is no email, the email alone when there is no name, and otherwise the name, a space, and the email in angle brackets, with no byte of either changed. The key reports the same user ID that its export contains and its self-certification signs.",
 ["inputs"], "every name and email string, including empty, very long and non-ASCII ones",
 "The tests use one short ASCII name with one email.",
 ["pgp/user_id.go", "derive.go", "mnemonikey.go"],
 [("UserID.Encode", "pgp/user_id.go")],
 ["Mnemonikey.UserID", "UserID.EncodePacket"])

prop("C22", "Exactly the requested subkeys exist, and are reported consistently",
 "With no subkey list all three subkeys are derived; with a list, exactly the listed types are, whatever its order, duplicates or unknown entries. The reported subkey types are exactly those present in the order encryption, authentication, signing, and a subkey's fingerprint is available exactly when that subkey is present and is that subkey's.",
 ["inputs", "configurations"], "every list of subkey type strings of any length, and none",
 "The tests use one two-element list.",
 ["key_options.go", "derive.go", "mnemonikey.go"],
 [("subkeyEnabled", "key_options.go"), ("SubkeyTypes", "mnemonikey.go"), ("SubkeyFingerprint", "mnemonikey.go")],
 ["New", "Mnemonikey.SubkeyTypes", "Mnemonikey.SubkeyFingerprint"])

prop("C23", "The word codec is exact, rejects bad input and leaves its arguments alone",
 "Encoding an integer to word positions and decoding them again is the identity for every integer that fits the given bit size, yields exactly ceil(size/12) positions with unused bits leading, and refuses an integer that does not fit. Positions of 4096 or more and unknown words are refused, a known word decodes in any letter case to the position that encodes to it, and no argument is modified.",
 ["inputs"], "every integer and every bit size from 0 to 255, every list of up to 22 positions or words",
 "The codec has no tests of its own; it only runs on the one payload of the phrase tests.",
 ["mnemonic/encode.go", "mnemonic/decode.go"],
 [("EncodeToIndices", "mnemonic/encode.go"), ("EncodeToWords", "mnemonic/encode.go"), ("DecodeIndices", "mnemonic/decode.go"), ("DecodeWords", "mnemonic/decode.go")],
 ["EncodeToIndices", "EncodeToWords", "DecodeIndices", "DecodeWords"])

prop("C24", "The bit buffer behaves as an exact double-ended queue of bits",
 "Appending bits at either end and taking bits from either end behaves exactly like concatenating and splitting fixed-width bit strings, for any sizes, and the byte form is the big-endian value padded with leading zero bits to whole bytes. Values handed in or out are never aliased or modified, and shared constants are never changed.",
 ["inputs", "histories"], "every buffer of up to 255 bits, every size, every append or take operation (and so every sequence of them)",
 "The tests pop a few constant nibbles; neither appending operation is tested, nor a width above 20 bits.",
 ["bit_buffer.go", "seed.go"],
 [("PopTrailingBits", "bit_buffer.go"), ("PopLeadingBits", "bit_buffer.go"), ("AppendLeadingBits", "bit_buffer.go"), ("AppendTrailingBits", "bit_buffer.go"), ("Bytes", "bit_buffer.go")],
 ["bitBuffer"])

prop("C25", "The command line turns a TTL into exactly that duration or refuses it",
 "A TTL argument is accepted exactly when it is a decimal number followed by one of the units d, w, m, y in either case, and then means that number of days, weeks, twelfths of a 365-day year or 365-day years. Any other text, or a number whose duration cannot be represented, is refused with an error.",
 ["inputs"], "every string",
 "No test passes a TTL.",
 ["cmd/mnemonikey/expiry.go"],
 [("parseTTL", "cmd/mnemonikey/expiry.go")],
 ["mnemonikey generate -ttl", "mnemonikey recover -ttl"])

prop("C26", "Command-line key selection and subkey indices reach the key unchanged",
 "The -only list selects exactly the named keys, exports the master key's secret exactly when the list is empty or names master, and refuses any unknown name. On recovery each -*-index value selects that index for that subkey type, an index above 65535 is refused before anything is derived, and name and email are used with only surrounding whitespace removed.",
 ["inputs", "configurations"], "every -only string, every index, every name and email",
 "The CLI tests run generate and recover without any of these options.",
 ["cmd/mnemonikey/common_opts.go", "cmd/mnemonikey/recover.go", "cmd/mnemonikey/generate.go"],
 [("DecodeOnlyKeyTypes", "cmd/mnemonikey/common_opts.go"), ("recoverAndPrintKey", "cmd/mnemonikey/recover.go"), ("generateAndPrintKey", "cmd/mnemonikey/generate.go")],
 ["mnemonikey generate", "mnemonikey recover"])

prop("C27", "A phrase is written only to a new, owner-only file and read back unchanged",
 "Writing a phrase to a word file never touches a path that already exists, creates the file readable and writable by its owner only, and stores exactly the words separated by single spaces and a final newline; any failure is reported as an error. Reading a word file returns exactly its whitespace-separated words in lower case, and refuses unknown words and a count that does not match the version in the first word.",
 ["inputs", "fault_sequences"], "every phrase, every outcome of the file-system calls, every file content",
 "The CLI tests write one file to a fresh path and never look at its mode, at existing files or at malformed input.",
 ["cmd/mnemonikey/generate.go", "cmd/mnemonikey/recover.go"],
 [("saveMnemonic", "cmd/mnemonikey/generate.go"), ("readWordFile", "cmd/mnemonikey/recover.go")],
 ["mnemonikey generate -out-word-file", "mnemonikey recover -in-word-file"])

prop("C28", "Converting a phrase preserves seed and creation time and goes where asked",
 "The convert command re-encodes exactly the seed and creation offset of its input phrase, as a plaintext phrase or as one encrypted with the newly entered password, which has to be entered twice alike. It writes the new phrase to the file given for output and otherwise prints it, and never writes to the input file.",
 ["inputs", "configurations"], "every input phrase, password, and combination of convert options",
 "No test runs the convert command.",
 ["cmd/mnemonikey/convert.go", "cmd/mnemonikey/recover.go", "encoding.go"],
 [("decodeAndConvertPhrase", "cmd/mnemonikey/convert.go")],
 ["mnemonikey convert"])

prop("C29", "Typed-in phrases contain exactly the words the user last entered",
 "Both phrase prompts return only wordlist words, as many as the version in the first word calls for, each being the word last submitted for its position; going back replaces the earlier word and never adds one. Words whose version is unsupported are not accepted as a first word.",
 ["inputs", "histories"], "every sequence of keystrokes or input lines",
 "The CLI test pipes one correct phrase into the simple prompt; correcting a word is never exercised.",
 ["cmd/mnemonikey/word_input.go"],
 [("userInputMnemonic", "cmd/mnemonikey/word_input.go"), ("userInputMnemonicSimple", "cmd/mnemonikey/word_input.go")],
 ["mnemonikey recover", "mnemonikey convert"])

prop("C30", "Text wrapping terminates and keeps every word at any terminal width",
 "For every text of words separated by single spaces, non-negative indent and terminal width, including zero and negative available width, wrapping finishes without a panic and outputs the words of the text in order, separated by single spaces or line breaks with the indent. A line exceeds the available width only when a single word does.",
 ["inputs"], "every text, every indent and every width",
 "No test renders help output; terminals narrower than the longest word are never tried.",
 ["cmd/mnemonikey/terminal.go"],
 [("justifyWidth", "cmd/mnemonikey/terminal.go")],
 ["mnemonikey help", "mnemonikey generate"])

prop("C31", "The phrase that generate outputs recovers the key it printed",
 "When generate succeeds it prints one armored key and outputs its phrase, printed or in the word file asked for but never both. Running recover on that phrase with the same name, email, TTL and key selection (and the same phrase password, if the phrase is encrypted) prints exactly the same key again, with or without -verbose. When generate fails it prints no key.",
 ["inputs", "configurations", "fault_sequences"], "every name, email, TTL, phrase password, random seed and creation time, with and without word file and phrase encryption, and every failure of the calls involved",
 "The CLI tests run one generate and one recover with fixed options and no TTL and never with an encrypted phrase.",
 ["cmd/mnemonikey/generate.go", "cmd/mnemonikey/recover.go", "cmd/mnemonikey/common_opts.go", "mnemonikey.go", "encoding.go", "recovery.go"],
 [("generateAndPrintKey", "cmd/mnemonikey/generate.go"), ("recoverAndPrintKey", "cmd/mnemonikey/recover.go"), ("saveMnemonic", "cmd/mnemonikey/generate.go"), ("readWordFile", "cmd/mnemonikey/recover.go")],
 ["mnemonikey generate", "mnemonikey recover"])

prop("C32", "Printed keys are protected with exactly the password entered, if asked for",
 "With -encrypt-keys, generate and recover prompt for a confirmed password and protect every secret they print with exactly that password; if the prompt fails they report an error and print no key. Without it they never protect the key, even when a phrase password was entered. The password protecting the phrase and the one protecting the keys are never mixed up.",
 ["inputs", "configurations", "fault_sequences"], "every pair of passwords, every combination of -encrypt-keys and -encrypt-phrase, every failing prompt",
 "No test runs the command with either password.",
 ["cmd/mnemonikey/generate.go", "cmd/mnemonikey/recover.go", "cmd/mnemonikey/word_input.go"],
 [("generateAndPrintKey", "cmd/mnemonikey/generate.go"), ("recoverAndPrintKey", "cmd/mnemonikey/recover.go"), ("userInputPassword", "cmd/mnemonikey/word_input.go")],
 ["mnemonikey generate -encrypt-keys", "mnemonikey recover -encrypt-keys"])

prop("C33", "A generated key comes from fresh system randomness and the current time",
 "Without -unsafe-entropy the seed behind a generated key is 16 bytes drawn from the operating system's random source in that run, all of them unchanged; its creation time is the whole second in which it was generated. With -unsafe-entropy the seed is exactly the first 16 bytes of the file named, or of standard input for '-', and fewer bytes are an error without a key. The salt of a phrase that generate or convert encrypts is drawn from the system random source as well, whatever the seed came from.",
 ["inputs", "configurations", "fault_sequences"], "every random source and entropy file, every clock reading, every name, email and password, every failing call",
 "A test cannot tell randomness from something that looks like it; none gives an entropy file or looks at the creation time of a generated key.",
 ["cmd/mnemonikey/generate.go", "cmd/mnemonikey/convert.go", "seed.go", "mnemonikey.go", "encoding.go"],
 [("generateAndPrintKey", "cmd/mnemonikey/generate.go"), ("decodeAndConvertPhrase", "cmd/mnemonikey/convert.go"), ("GenerateSeed", "seed.go"), ("EncodeMnemonicEncrypted", "encoding.go")],
 ["mnemonikey generate", "mnemonikey convert -encrypt-phrase"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
