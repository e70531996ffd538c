STD_WHY = "The tests hash a handful of fixed strings, so almost every (length, split, content) combination, every long message and every state of the carry/buffer logic is unsampled."
HN = ("Every obligation (block function equal to the standard for all inputs, block buffering as a loop invariant over message position, padding for every residue of the "
      "length, constructors, text form, memory safety) is discharged for all inputs. Trusted: clang-18 front end, the vf IR semantics, z3, the reference specification in vf/specs.py, "
      "assumed contracts on std::string growth.")


def hashprop(id, nm, std, files, mech):
    prop(id, "%s digests equal the standard for every message and every call pattern" % nm,
         "For every byte sequence and every way of splitting it over constructor arguments and successive additions, reading the digest of a %s object gives exactly the %s digest "
         "of the concatenated bytes, as raw bytes and as lower-case hexadecimal text. Reading a digest does not change the object, so digests may be read in the middle and adding continued. "
         "No call reads or writes outside the supplied data or the object itself." % (nm, std),
         ["inputs", "histories"], "all messages up to the algorithm's length limit, all splits into additions, all interleavings of additions, digest reads and copies", STD_WHY, files, mech, HN)


hashprop("C01", "SHA-2", "FIPS 180-4 SHA-224/256/384/512", ["include/caligo/sha2.h", "src/sha2.cpp"],
         [("chunk compression", "src/sha2.cpp processChunk"), ("block buffering", "src/sha2.cpp add"), ("padding and length", "src/sha2.cpp conversion to digest")])
hashprop("C02", "SHA-1", "FIPS 180-4 SHA-1", ["include/caligo/sha1.h", "src/sha1.cpp"],
         [("chunk compression", "src/sha1.cpp processChunk"), ("block buffering", "src/sha1.cpp add"), ("padding and length", "src/sha1.cpp conversion to digest")])
hashprop("C03", "MD5", "RFC 1321 MD5", ["include/caligo/md5.h", "src/md5.cpp"],
         [("chunk compression", "src/md5.cpp processChunk"), ("block buffering", "src/md5.cpp add"), ("padding and length", "src/md5.cpp conversion to digest")])
hashprop("C04", "SHA-3", "FIPS 202 SHA3-224/256/384/512", ["include/caligo/sha3.h", "src/sha3.cpp"],
         [("Keccak permutation", "src/sha3.cpp processChunk"), ("byte-wise absorption", "src/sha3.cpp add"), ("padding and squeezing", "src/sha3.cpp conversion to digest")])

CN = "Discharged for all inputs over the extracted IR; callee contracts are themselves proved. Trusted: clang-18 front end, vf IR semantics, z3, the specification text, contracts on std::vector/std::string growth."
hashprop("C05", "CRC-32", "IEEE 802.3 CRC-32 (reflected polynomial 0xEDB88320, complemented start and end)", ["include/caligo/crc.h", "src/crc.cpp"],
         [("table and update loop", "src/crc.cpp"), ("digest forms", "include/caligo/crc.h")])
prop("C06", "The hash facade behaves exactly like the algorithm its name stands for",
     "hash(name) accepts exactly the documented algorithm names, refuses every other name with an exception, and the object it returns gives, for every message and split, the digest, digest size and "
     "DigestInfo object identifier of that algorithm and no other.",
     ["inputs", "histories"], "all names, all messages and splits, all algorithms", "Tests touch a few names; wrong dispatch for another name or a wrong identifier stays unseen.",
     ["include/caligo/hash.h", "src/hash.cpp"], [("name dispatch", "src/hash.cpp"), ("DigestInfo prefixes", "include/caligo/{md5,sha1,sha2,sha3}.h asn1Id")], CN)
prop("C07", "AES block encryption equals FIPS 197 for every key and block",
     "For every 128- and 256-bit key and every block, the key schedule followed by block encryption gives the FIPS 197 ciphertext; a key of any other length is refused with an exception before any byte outside it is read.",
     ["inputs"], "all keys of every length, all blocks", "A test vector samples one key; a wrong round key or missing step for another key class is unsampled.",
     ["include/caligo/aes.h", "src/aes.cpp"], [("key schedule", "src/aes.cpp"), ("rounds", "include/caligo/aes.h AesEncrypt")],
     CN + " The AES-NI instructions follow the Intel SDM (vf/natives.py).")
prop("C08", "GHASH multiplication equals the GF(2^128) product for all operands",
     "For every pair of 128-bit blocks, the carry-less multiply-and-reduce step gives the product in the field and bit order of NIST SP 800-38D, and the block step gives (block xor accumulator) times the hash key.",
     ["inputs"], "all pairs of blocks", "A handful of products cannot reveal a wrong reduction of particular carry patterns.",
     ["include/caligo/ghash.h"], [("multiply and reduce", "include/caligo/ghash.h galoisMultiply"), ("block step", "include/caligo/ghash.h ghash_block")],
     "Proved as an identity of bilinear forms over GF(2) for all operands. PCLMULQDQ follows the Intel SDM.")
prop("C09", "AES-GCM seals and opens exactly as SP 800-38D for every message sequence",
     "For AES-128 and AES-256 and every key, nonce, associated data and text: the n-th operation on a GCM object (n from 0) gives the SP 800-38D ciphertext and 16-byte tag for the pre-counter block with n xored, big-endian, into "
     "bytes 4 to 11; decryption reports success exactly when the supplied tag equals that tag, and then returns the plaintext. 12-byte nonces are used directly, nonces of 8 or more than 12 bytes are hashed, others "
     "seal nothing and open nothing. A wrong-sized key is refused. No byte outside the inputs and outputs is touched.",
     ["inputs", "histories"], "all keys, nonces, texts, associated data and numbers of earlier messages", "Vectors fix a few lengths and only the first messages; length residues, counter carries, later messages and near-miss tags are unsampled.",
     ["include/caligo/gcm.h", "include/caligo/ghash.h", "include/caligo/key_iv_pair.h"],
     [("nonce handling", "include/caligo/gcm.h GCM::GCM"), ("authentication", "include/caligo/gcm.h ghash, calculate_tag"), ("counter mode", "include/caligo/gcm.h Encrypt, Decrypt, ctr_inc")],
     CN + " Lengths are assumed below 2^58 bytes; the block cipher and the multiplication enter through the contracts proved by C07 and C08.")
prop("C10", "CTR mode applies the AES key stream of every message position and number",
     "For AES-128 and AES-256 and every key, 16-byte nonce and data: the n-th operation on a CTR object (n from 0) xors byte j of the data with byte j mod 16 of the cipher applied to the block formed from the nonce with n xored, big-endian, "
     "into bytes 4 to 11 and its last 32 bits increased by 1 + j div 16 (mod 2^32); encryption and decryption are the same operation, so a second object fed in the same order restores the data. Other key or nonce sizes are refused. "
     "No byte outside the data is touched.",
     ["inputs", "histories"], "all keys, nonces, data lengths and numbers of earlier messages", "No test exercises CTR mode at all; lengths, carries and message numbers are unsampled.",
     ["include/caligo/ctr.h"], [("key stream", "include/caligo/ctr.h GenerateKeystream, ctr_inc"), ("application", "include/caligo/ctr.h Encrypt, Decrypt"), ("size checks", "include/caligo/ctr.h CTR::CTR")],
     CN + " Lengths are assumed below 2^58 bytes.")
prop("C11", "ChaCha20 equals RFC 8439 for every key, nonce, split and stream position",
     "For every 32-byte key, 12-byte nonce and data, split in any way over successive Encrypt and Decrypt calls on one object, each byte is xored with the RFC 8439 key stream (block counter from 1) at the total number of bytes processed before it; "
     "other key or nonce sizes are refused. No byte outside the data is touched.",
     ["inputs", "histories"], "all keys, nonces, data and sequences of calls", "The tests encrypt one text in one call; splits, later blocks and counter wrap are unsampled.",
     ["include/caligo/chacha20.h"], [("block function", "include/caligo/chacha20.h GenerateBlock"), ("stream position", "include/caligo/chacha20.h Encrypt, Decrypt"), ("set-up", "include/caligo/chacha20.h ChaCha20::ChaCha20")], CN)
prop("C12", "HMAC equals RFC 2104 for every hash, key and text",
     "For each of the ten hash classes and every key and text, HMAC equals RFC 2104 with that hash's block size (64 bytes for MD5, SHA-1, SHA-224, SHA-256; 128 for SHA-384, SHA-512; 144, 136, 104, 72 for SHA3-224/256/384/512), keys longer than a block "
     "being replaced by their digest. No byte outside the inputs is read.",
     ["inputs"], "all hashes, keys and texts of all lengths", "The tests try one hash with one key length; keys around the block size and other hashes are unsampled.",
     ["include/caligo/hkdf.h"], [("padding and nesting", "include/caligo/hkdf.h HMAC"), ("block sizes", "include/caligo/{md5,sha1,sha2,sha3}.h blocksize")],
     CN + " The hash enters as a function of the bytes added (proved in C01-C04).")
prop("C13", "HKDF and the TLS 1.3 key schedule follow RFC 5869 and RFC 8446",
     "For every hash class and all inputs: Extract and Expand equal RFC 5869 (outputs up to 255 hash lengths); Expand-Label equals RFC 8446 7.1 for every label of up to 249 bytes, context of up to 255 bytes and length of up to 65535; handshake, master, "
     "updated, exporter and resumption secrets, client and server traffic secrets, record keys and nonces, and finished keys are exactly the RFC 8446 derivations with the labels and contexts given there.",
     ["inputs"], "all secrets, salts, infos, labels, contexts, transcript hashes and lengths", "One recorded handshake fixes a single value of each input, one hash and one length.",
     ["include/caligo/hkdf.h"], [("Expand loop", "include/caligo/hkdf.h HKDF_Expand"), ("label encoding", "include/caligo/hkdf.h HKDF_Expand_Label"), ("schedule", "include/caligo/hkdf.h secret, HKDF_*Secret, exporter_master, resumption_master")],
     CN + " Expand is proved over the HMAC contract (C12), labels over Expand, the schedule over Extract and Expand-Label.")
prop("C14", "Base64 encoding and decoding are exact, total and inverse",
     "For every byte sequence, each of the three character sets and each option, base64() emits exactly the RFC 4648 digits of its 3-byte groups, '=' padding unless omitted, and with newlines a newline after every 76 characters and one at the end. "
     "For every character sequence, base64d() skips every character that is not a digit of some set ('+' and '-' are 62; '/', ',' and '_' are 63) and emits exactly the bytes of the digits' 4-digit groups, a last group of 2 or 3 digits giving 1 or 2 bytes and "
     "a single left-over digit nothing. Hence base64d(base64(x)) = x for all options. No byte outside the input is read and the calls never fail.",
     ["inputs"], "all byte and character sequences of any length, all options", "Vectors fix a few short strings; line boundaries, options, character sets and malformed text are unsampled.",
     ["src/base64.cpp"], [("encoding", "src/base64.cpp base64, getLookupFor"), ("decoding", "src/base64.cpp base64d, valueOf")],
     CN + " std::string::push_back and std::vector growth enter through assumed contracts.")
prop("C15", "Multi-word integer arithmetic is exact at every width",
     "For bignum numbers of every value: addition and subtraction give the sum and difference modulo 2^W with the exact carry and borrow; the products (number by number, square, number by 32-bit word) are the exact products; comparison, "
     "equality, shifts, complement, xor, and, bit access, conditional swap, conversions between widths, from words and little-endian bytes and to bytes, and slices are the corresponding functions of the integer; "
     "naive_reduce gives the remainder below the modulus for every nonzero modulus and throws for zero. No byte outside the operands is touched.",
     ["inputs"], "all values of the operands at widths 32 to 4096 bits", "Tests sample a handful of numbers; carries across all words, extreme words and unequal widths are unsampled.",
     ["include/caligo/bignum.h"], [("sums and products", "include/caligo/bignum.h add, sub, operator+, operator-, operator*"), ("bits and conversions", "include/caligo/bignum.h shr1, shl_word, bit, set_bit, slice, bignum(bignum<K>)"),
      ("remainder", "include/caligo/bignum.h naive_reduce")],
     CN + " Word loops are executed for each template width; results are compared as exact integer polynomials in the operand words.")
prop("C16", "Montgomery arithmetic equals arithmetic modulo N for every odd modulus",
     "For every odd modulus N and every operand: RecursiveInverseModPower2 is the inverse modulo 2^K; the state holds -1/N mod 2^K and 2^K, 2^2K, 2^3K mod N; REDC(v) is v/2^K mod N for v below N 2^K; a MontgomeryValue of x holds x 2^K mod N, "
     "and converting back after any sequence of +, *, square and exp (with a 32-bit or a K-bit exponent) gives the sum, product, square or power modulo N, always fully reduced.",
     ["inputs", "histories"], "all odd moduli, operands and exponents at widths 32 to 4096 bits", "Tests use one or two moduli; moduli with the top bit set, operands at or above N and rare final subtractions are unsampled.",
     ["include/caligo/mont.h"], [("inverse", "include/caligo/mont.h RecursiveInverseModPower2"), ("reduction", "include/caligo/mont.h MontgomeryState::REDC"), ("values", "include/caligo/mont.h MontgomeryValue")],
     CN + " Proved over the contracts of C15 with integers as unbounded unknowns; congruences by normal form modulo N, ranges by linear integer arithmetic.")
prop("C17", "X25519 computes the RFC 7748 function for every scalar and coordinate",
     "For all 256-bit a and b taken as field elements modulo p = 2^255-19, reduced or not: +, -, * (element or 32-bit factor), square() and inverse() give elements congruent to the field result (inverse(0) = 0), ==, != and < compare the residues, "
     "applyModulus() gives the residue below p, normalize() is the RFC 7748 clamping, and X25519(k, u) is the fully reduced RFC 7748 function of the clamped scalar and u mod p, including u = 0 and points of small order.",
     ["inputs"], "all scalars and coordinates, all reduced and unreduced representations", "Vectors sample a few points; double carries and unreduced operands near p, 2p and 2^256 occur with probability near 2^-250 on random inputs.",
     ["include/caligo/x25519.h"], [("field", "include/caligo/x25519.h ec_value"), ("inverse", "include/caligo/x25519.h inverse"), ("ladder", "include/caligo/x25519.h X25519")],
     CN + " Proved over the contracts of C15: field results by integer case splits on the carries, inverse as an exponent of z, the ladder by a loop invariant over the RFC step on exact polynomials modulo p.")
prop("C18", "RSA signatures are made and accepted exactly as RFC 8017 says",
     "MGF1, EMSA-PSS-ENCODE and EMSA-PKCS1-v1_5 give the RFC 8017 octets for every input, or nothing when the length is too small. validatePssSignature / validatePkcs1_5Signature accept exactly the signatures that have the modulus' length, are below n, and whose "
     "power by e is the encoding of the message (for PSS with a salt of the MGF hash's length, top bits and octet included); signing gives d-th powers of the encodings at the modulus' length; rsaep/rsadp are the powers modulo n for every exponent; "
     "each TLS 1.3 RSA scheme number selects its own padding and hash, any other number is refused.",
     ["inputs"], "all messages, signatures, salts, keys and exponents (modulus lengths listed in the evidence); all scheme numbers", "Forgeries and boundary lengths (moduli of 8k+1 bits, signatures at or above n, leading zeros, wrong padding bits) are not what sampled vectors contain.",
     ["include/caligo/rsa.h", "include/caligo/pkcs1.h", "src/X509Certificate.cpp"], [("mask", "include/caligo/rsa.h MGF1"), ("encodings", "include/caligo/rsa.h generatePssData, include/caligo/pkcs1.h PKCS1"), ("keys", "include/caligo/rsa.h rsa_public_key, rsa_private_key"), ("schemes", "src/X509Certificate.cpp RsaPubkey::validateSignature, RsaPrivateKey::sign")],
     CN + " Proved over the contracts of the hashes, bignum and Montgomery operations.")
prop("C19", "Certificates are read exactly, within bounds, and verified only when signed",
     "asn1_view::read() returns exactly the definite-length element at its position (any length form whose value fits 64 bits) or throws when there is none, and never reads outside the data. UTCTime and GeneralizedTime give the seconds since 1970 of every "
     "calendar date of the Gregorian calendar from 1970 on, and 0 when malformed, earlier or out of range; INTEGERs give their value (low bits). parseCertificate returns the serial, names, dates and key that are encoded, or nothing or an exception for damaged input; "
     "parseCertificatesPem returns every certificate of a bundle once. x509certificate::verify is true only if the validity lies within the issuer's, the issuer has a usable key, and that key's validateSignature accepts the certificate's signature over its "
     "to-be-signed part under the scheme its algorithm identifier names.",
     ["inputs"], "all byte strings as elements, dates and numbers; all certificates and issuers in verify; whole-certificate parsing on generated and damaged samples", "Tests parse a few good certificates; truncated lengths, century leap years, foreign algorithms and absent keys are not among them.",
     ["include/caligo/Asn1.h", "src/X509Certificate.cpp", "include/caligo/X509Certificate.h"], [("elements", "include/caligo/Asn1.h asn1_view::read"), ("dates", "src/X509Certificate.cpp parseDer<x509date>"), ("numbers", "src/X509Certificate.cpp parseDer<int>, parseBignumDer"),
      ("verification", "src/X509Certificate.cpp x509certificate::verify"), ("certificates", "src/X509Certificate.cpp parseCertificate, parseCertificatesPem")],
     CN + " Callers see asn1_view::read through its proved contract; validateSignature through C18. Whole-certificate, PEM, name and private-key parsing is a bounded replay against a reference, not proved.")
prop("C20", "A certificate chain is trusted only through verified issuers",
     "Truststore::trust(chain, now) returns true only if the first certificate is valid at that time and x509certificate::verify accepted it with an issuer that is a trusted certificate or a certificate of the chain that was itself accepted in the same way; "
     "certificates of the chain never take the place of a trusted certificate or of an already accepted one of the same name, rejected ones are not used as issuers, an empty chain is refused, and no access leaves the chain. "
     "A chain whose certificates link the first one to a trusted certificate is accepted in any order of its other certificates. get() returns the last certificate added under a name.",
     ["inputs", "histories"], "all chains of any length and content, stores and times for the \"only if\" part; generated chains for the rest", "Tests check a few chains; forged intermediates, shadowed names, reordered and damaged chains are not sampled.",
     ["src/Truststore.cpp"], [("chain search", "src/Truststore.cpp Truststore::trust"), ("store", "src/Truststore.cpp Truststore::get, addCertificate")],
     CN + " std::map enters through an abstract contract; verification through C19. Acceptance of every good chain, get and addCertificate are a bounded replay.")

prop("C21", "The primality test never rejects a prime and prime generation obeys its bits",
     "Below 7920 the test answers exactly whether the number is prime; above, it answers yes exactly for odd numbers that pass the Miller-Rabin strong test to each of the first 1000 primes, so every prime of every supported width is accepted. "
     "A generated prime has passed the test, is odd and has its top bit (in the strict form its two top bits) set.",
     ["inputs"], "all numbers of each width, all random sequences", "Tests try a few small numbers and a sample of generated primes; primes p with p-1 divisible by a large power of two, and composites that pass small bases, are never sampled.",
     ["include/caligo/random_prime.h"], [("one round", "include/caligo/random_prime.h miller_rabin_one_loop"), ("decomposition and bases", "include/caligo/random_prime.h miller_rabin_is_probably_prime"), ("search", "include/caligo/random_prime.h random_prime")],
     CN + " Montgomery and bignum operations enter by the contracts proved in C15/C16; widths 32 to 2048; the search is proved partially correct (no termination claim).")
prop("C22", "Random fills cover every element with fresh generator output",
     "For each of the four element types and every length, filling a span writes every element with the next unused bits of the generator's successive values, in little-endian order, uses no value twice, skips none, and writes nothing outside the span. "
     "A random multi-word number has every word filled the same way.",
     ["inputs"], "all lengths and element types, all generator values", "Tests only call the functions on one length and look at nothing; unfilled tails or repeated values show in no result.",
     ["include/caligo/random.h", "include/caligo/bignum.h"], [("fills", "include/caligo/random.h generate_random"), ("numbers", "include/caligo/bignum.h random")],
     CN + " The generator's values are an arbitrary sequence.")

na("N01", "Secret-dependent timing: tags, keys and exponents do not steer control flow",
   "No branch, memory address or early exit of the cryptographic primitives depends on the value of a key, private exponent, plaintext or expected tag. Comparing a received tag takes the same time wherever it differs.",
   ["inputs"], "all secrets", "Functional tests observe results, not the path taken to them.", ["include/caligo/gcm.h", "include/caligo/mont.h", "include/caligo/bignum.h", "include/caligo/x25519.h"],
   [("tag comparison", "include/caligo/gcm.h Decrypt"), ("selection", "include/caligo/mont.h exp")],
   "A relational (two-run) property of machine code: the contracts here speak about single runs of IR before optimisation, and selects and look-ups may become branches in the back end, so an accepted obligation would not "
   "settle it. The README's promise is moreover not kept by design today (table-driven and branching bignum code, comparison by operator==), so there is no property to certify.")
na("N02", "Independent objects can be used from independent threads",
   "Two threads that use different objects of any class of the library never interfere with each other.",
   ["schedules"], "all interleavings", "Tests are single-threaded.", ["include/caligo/random.h", "src/random.cpp", "src/Truststore.cpp"],
   [("random state", "include/caligo/random.h generate_random_value"), ("trust store", "src/Truststore.cpp Instance")],
   "Every class but the random generator touches only its own object (the frame conditions of C01-C20 show it: each proof fails on a write outside the object and the outputs); the generator keeps a function-local static without "
   "synchronisation, which contradicts the README, and deductive verification of weak-memory C++ is outside the engine. Repairing it means choosing a different generator, a design decision.")
na("N03", "Random numbers, salts and keys are unpredictable",
   "Values produced by the random generator cannot be predicted from earlier ones.",
   ["histories"], "all histories of the generator", "Statistical samples do not show unpredictability.", ["include/caligo/random.h"], [("generator", "include/caligo/random.h generate_random_value")],
   "Not a functional property a contract can express; without RDSEED the generator is a linear congruential generator with a fixed seed, documented in the source as a placeholder.")
na("N04", "Checking a chain of certificates always ends",
   "Truststore::trust returns for every list of certificates.",
   ["inputs"], "all lists of certificates", "Tests check one chain.", ["src/Truststore.cpp"], [("worklist", "src/Truststore.cpp trust")],
   "C20 proves what a returned answer means (partial correctness). Termination needs a measure over the number of distinct names not yet accepted, that is, cardinality of a symbolic finite map, which the engine's map model does "
   "not have; the replay of C20 has an idle time-out, so a hang on its inputs is reported.")
