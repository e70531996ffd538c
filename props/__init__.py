REG = {
    "C01": ("hashes", ("sha2",)),
    "C02": ("hashes", ("sha1",)),
    "C03": ("hashes", ("md5",)),
    "C04": ("hashes", ("sha3",)),
    "C05": ("hashes", ("crc",)),
    "C07": ("sym", ("aes",)),
    "C06": ("facade", ()),
    "C08": ("sym", ("ghash",)),
    "C09": ("sym", ("gcm",)),
    "C10": ("sym", ("ctr",)),
    "C12": ("kdf", ("hmac",)),
    "C13": ("kdf", ("hkdf",)),
    "C14": ("b64", ("b64",)),
    "C15": ("bignum", ("bignum",)),
    "C16": ("bignum", ("mont",)),
    "C17": ("ec", ("x25519",)),
    "C18": ("rsa", ("rsa",)),
    "C19": ("x509", ("x509",)),
    "C20": ("trust", ("trust",)),
    "C21": ("primes", ("primes",)),
    "C22": ("primes", ("fills",)),
    "C11": ("sym", ("chacha",)),
}
