W='IO/BinaryWriter.py';R='IO/BinaryReader.py';U='UIntBase.py';BI='BigInteger.py';F8='Fixed8.py';KP='KeyPair.py';CR='Cryptography/Crypto.py';EC='Cryptography/ECCurve.py';HP='Cryptography/Helper.py';MT='Cryptography/MerkleTree.py';CLI='bin/cli.py';U1='UInt160.py';U2='UInt256.py'
B=[
('C13',[(BI,"            return self.to_bytes((self.bit_length() + 7) // 8, byteorder='little', signed=signed)","            return self.to_bytes((self.bit_length() + 7) // 8, byteorder='little', signed=signed or self.bit_length() > 512)")]),
('C14',[(F8,"        return Fixed8(pow(self.value, power.value, modulo))","        return Fixed8(int(pow(self.value, power.value, modulo)) if power.value < 64 else int(float(self.value) ** power.value))")]),
('C14',[(F8,"        return Fixed8(int(quotient))","        return Fixed8(int(quotient)) if abs(quotient) < Fixed8.D or other.value % 2 else Fixed8(self.value // other.value)")]),
('C15',[(F8,"            if require_positive and val < 0:","            if require_positive and val < -0.00000001:")]),
('C15',[(F8,"return Fixed8(int(self.value // Fixed8.D) * Fixed8.D)","return Fixed8(self.ToInt() * Fixed8.D)")]),
('C15',[(F8,"DECIMAL_CONTEXT = Context(prec=28, rounding=ROUND_DOWN)","DECIMAL_CONTEXT = Context(prec=19, rounding=ROUND_DOWN)")]),
('C17',[(CR,"        if len(data) > 1 and unhex:\n            data = binascii.unhexlify(data)","        if len(data) > 1 and unhex and len(data) % 2 == 0:\n            data = binascii.unhexlify(data)")]),
('C17',[(HP,"    d2.update(d1.digest())","    d2.update(d1.digest().lstrip(b'\\x00').rjust(31, b'\\x00'))")]),
('C18',[(HP,"    sb = bytearray([ADDRESS_VERSION]) + scripthash","    sb = bytearray([ADDRESS_VERSION]) + bytearray(scripthash).rstrip(b'\\x00').ljust(20, b'\\x00')[:20]")]),
('C18',[(HP,"    return base58.b58encode(bytes(outb)).decode(\"utf-8\")","    return base58.b58encode(bytes(outb)).decode(\"utf-8\").rjust(34, '1')")]),
('C18',[(KP,"        script = b'21' + self.PublicKey.encode_point(True) + b'ac'\n        script_hash = Crypto.ToScriptHash(script)","        script_hash = self.PublicKeyHash")]),
('C19',[(CLI,"    if data[-4:] != hashlib.sha256(hashlib.sha256(data[:-4]).digest()).digest()[:4]:","    if not hashlib.sha256(hashlib.sha256(data[:-4]).digest()).digest().startswith(data[21:24]):")]),
('C19',[(CLI,"    if len(data) != 25:","    if len(data) < 25:"),(CLI,"    return data[1:-4]","    return data[1:21]")]),
('C20',[(KP,"        data[1:33] = self.PrivateKey[0:32]","        data[1:33] = self.PrivateKey.lstrip(b'\\x00').rjust(32, b'\\x00') if self.PrivateKey[0] else self.PrivateKey[0:31] + b'\\x00'")]),
('C20',[(KP,"        if checksum != data[34:]:","        if checksum[:3] != data[34:37]:")]),
('C21',[(KP,"        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')\n        derived = scrypt.hash(pwd_normalized, address_hash,\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        # Split","        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')[:64]\n        derived = scrypt.hash(pwd_normalized, address_hash,\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        # Split")]),
('C21',[(KP,"SCRYPT_PARALLEL_FACTOR = 8","SCRYPT_PARALLEL_FACTOR = 1")]),
('C22',[(KP,"            raise ValueError(\"Wrong passphrase\")","            if kp_new_address_hash[::-1] != address_hash:\n                raise ValueError(\"Wrong passphrase\")")]),
('C22',[(KP,"        encrypted = decoded_key[-32:]\n\n        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')","        encrypted = decoded_key[-32:]\n\n        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8', 'ignore')")]),
('C23',[(CR,"        Crypto.SetupSignatureCurve()\n        v, r, s","        Crypto.Default()\n        v, r, s")]),
('C23',[(KP,"        self.setup_curve()\n\n        length","        if bitcoin.main.B != 41058363725152142129326129780047268409114441015993725554835256314039467401291:\n            self.setup_curve()\n\n        length")]),
('C24',[(EC,"                     int(\"FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551\", 16))","                     int(\"FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632515\", 16))")]),
('C25',[(CR,"            res = vk.verify(signature, message, hashfunc=hashlib.sha256)","            res = vk.verify(signature[:64], message, hashfunc=hashlib.sha256)")]),
('C25',[(CR,"        except Exception as e:\n            pass\n\n        return False","        except (AssertionError, ValueError) as e:\n            pass\n\n        return False")]),
('C26',[(EC,"                ybytes.reverse()\n\n                data = bytearray(b'\\x04')","                if endian == 'little':\n                    ybytes.reverse()\n\n                data = bytearray(b'\\x04')")]),
('C26',[(EC,"        if f == 2 or f == 3:\n            yTilde = f & 1\n            data = bytearray(reader","        if f == 2 or f == 3:\n            yTilde = f & 2 >> 1\n            data = bytearray(reader")]),
('C26',[(EC,"            if self == self.curve.Infinity:\n                writer.WriteByte(b'\\x00')","            if self.x.iszero():\n                writer.WriteByte(b'\\x00')")]),
('C27',[(EC,"        return p.iszero() or p.y ** 2 ==","        return p.x.iszero() or p.y ** 2 ==")]),
('C27',[(EC,"        if ysquare_root is None:\n            raise Exception(\"Invalid point: x is not on the curve\")","        if ysquare_root is None:\n            ysquare_root = 0 if x.iszero() else modpow(ysquare.value, (cq + 1) // 4, cq)")]),
('C28',[(EC,"        def __ge__(self, other):\n            if other == self:\n                return True\n            return self.__gt__(other)","        def __ge__(self, other):\n            return not self.__lt__(other) if self.x != other.x else True")]),
('C28',[(EC,"return lhs.x == rhs.x and lhs.y == rhs.y","return lhs.x == rhs.x and lhs.y ** 2 == rhs.y ** 2 and lhs.y.value % 2 == rhs.y.value % 2 or lhs.iszero() and rhs.x.iszero()")]),
]
