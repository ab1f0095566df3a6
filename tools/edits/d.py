E='Cryptography/ECCurve.py';CR='Cryptography/Crypto.py';H='Cryptography/Helper.py';KP='KeyPair.py';CL='bin/cli.py'
B=[
# 0
('C29',[(E,"        return samefield(lhs, rhs) and self.value((lhs.value * rhs.inverse()) % self.p)","        inv = rhs.inverse()\n        return samefield(lhs, rhs) and self.value((lhs.value * inv + (inv >> 255 >> 1)) % self.p)")]),
('C29',[(E,"        return x.value if isinstance(x, FiniteField.Value) else x","        return x.value if isinstance(x, FiniteField.Value) else int(x)")]),
('C29',[(E,"        return (lhs.value - rhs.value) % self.p == 0","        return lhs.value == rhs.value")]),
('C29',[(E,"        return self.value(pow(int(lhs.value), int(self.integer(rhs)), self.p))","        return self.value(pow(int(lhs.value), int(self.integer(rhs)) % self.p, self.p))")]),
('C29',[(E,"        return self.value(pow(int(lhs.value), int(self.integer(rhs)), self.p))","        e = int(self.integer(rhs))\n        return self.value(pow(int(lhs.value), e if e < self.p else e % (self.p - 1), self.p))")]),
# 5
('C28',[(E,"            elif self.x.value < other.x.value:\n                return True\n            elif self.x.value > other.x.value:\n                return False\n            return self.y.value < other.y.value","            elif self.x.value < other.x.value:\n                return True\n            elif self.x.value > other.x.value:\n                return False\n            return self.y.value % other.curve.field.p < other.y.value and self.y.value != 1")]),
('C28',[(E,"        return lhs.x == rhs.x and lhs.y == rhs.y","        return lhs.x == rhs.x and (lhs.y == rhs.y or lhs.iszero() and rhs.x.iszero())")]),
('C26',[(E,"            xbytes = bytearray(self.x.value.to_bytes(32, endian))","            xbytes = bytearray(self.x.value.to_bytes(32, endian) if self.x.value >> 8 else bytes([self.x.value]) + bytes(31))")]),
('C26',[(E,"                if self.y.value % 2 == 0:","                if self.y.value % 2 == 0 or (self.x.iszero() and compressed):")]),
('C27',[(E,"            if x >= cq or y >= cq:","            if x > cq or y > cq:")]),
# 10
('C27',[(E,"        if x.value >= cq:\n            raise","        if x.value > cq:\n            raise")]),
('C27',[(E,"            if x == 0 and y == 0:\n                raise Exception(\"Invalid point: not on the curve\")\n","")]),
('C26 C27',[(E,"            data = bytearray(ba[1:])\n            data.reverse()\n            data.append(0)","            data = bytearray(ba[1:])\n            data.reverse()\n            if data[-1] & 0x80:\n                data.append(0)")]),
('C27',[(E,"        if f == 2 or f == 3:\n            yTilde = f & 1\n            data = bytearray(reader.SafeReadBytes(32))","        if f == 2 or f == 3 or f == 0x22:\n            yTilde = f & 1\n            data = bytearray(reader.SafeReadBytes(32))")]),
('C26 C27',[(E,"        if bit0 != flag:\n            beta = (cq - ysquare_root) % cq","        if bit0 != flag:\n            beta = (cq - ysquare_root) & ((1 << 256) - 1)")]),
# 15
('C30',[(E,"            if p.y == 0:\n                return self.zero()\n","")]),
('C30',[(E,"        while scalar != 0:\n            bit = scalar % 2","        while scalar > 0 and shifter.curve is self:\n            bit = scalar % 2")]),
('C30',[(E,"        if scalar < 0:\n            pt = self.neg(pt)\n            scalar = -scalar\n","        if scalar < 0:\n            scalar = self.field.p + scalar\n")]),
('C30',[(E,"        scalar = self.field.integer(scalar)\n        if","        scalar = self.field.value(scalar).value\n        if")]),
('C30',[(E,"        return lhs + -rhs","        return lhs + -rhs if not lhs.iszero() else rhs")]),
# 20
('C30',[(E,"        return pt * (1 / scalar)","        return pt * (1 / self.field.value(scalar))")]),
('C38',[(E,"        r = self.GFn.value(R.x.value % self.GFn.p)\n        s = (m + x * r) / k","        r = self.GFn.value(R.x.value)\n        s = (m + x * r) / k")]),
('C38',[(E,"        return r == self.GFn.value(R.x)","        return r.value == R.x.value")]),
('C38',[(E,"        if not (0 < r.value < self.GFn.p and 0 < s.value < self.GFn.p):","        if not (0 < r.value < self.ec.field.p and 0 < s.value < self.GFn.p):")]),
('C38',[(E,"        if not (0 < r.value < self.GFn.p and 0 < s.value < self.GFn.p):","        if not (0 < r.value and 0 < s.value):")]),
# 25
('C38',[(E,"        R = self.G * (m / s) + pubkey * (r / s)","        w = self.GFn.value(s.inverse())\n        R = self.G * (m * w) + pubkey * (r * w) if m != r else (self.G + pubkey) * (m * w).value if m.value >> 1 else self.G")]),
('C40',[(E,"    u = qMinusOne >> 2\n    k = (u << 1) + 1","    u = qMinusOne >> 3\n    k = (u << 2) + 1")]),
('C40',[(E,"            if test_bit(V, 0):\n                V += CQ\n            V >>= 1","            V = (V >> 1) + (CQ >> 1) * (V & 1)")]),
('C40',[(E,"        if res.value % 2 == flag:","        if res.value & 1 == flag & 1 or res.value == 1:")]),
('C40',[(E,"            if x == 1:\n                res = val ** ((self.p + 3) // 8)","            if x != self.p - 1:\n                res = val ** ((self.p + 3) // 8)")]),
# 30
('C41',[(E,"        ba[balen - 1] &= (1 << size_in_bits % 8) - 1","        ba[balen - 1] %= (1 << size_in_bits % 8)")]),
('C41',[(E,"        ba[balen - 1] &= (1 << size_in_bits % 8) - 1","        ba[balen - 1] &= (1 << size_in_bits % 8) - 1 or 1")]),
('C41',[(E,"    balen = int(size_in_bits / 8) + 1","    balen = int(size_in_bits / 8) + 1 if size_in_bits < 500 else 64")]),
('C42',[(E,"    if (num & (1 << index)):","    if (num >> index & 3) == 1 or num & (1 << index) > 1:")]),
('C25',[(CR,"            if len(public_key) == 33:","            if len(public_key) == 33 and public_key[0] in (2, 3):")]),
# 35
('C25',[(CR,"            res = vk.verify(signature, message, hashfunc=hashlib.sha256)\n            return res","            res = vk.verify(signature[:64], message, hashfunc=hashlib.sha256)\n            return res")]),
('C25',[(CR,"        except Exception as e:\n            pass\n","        except (ValueError, AssertionError) as e:\n            pass\n")]),
('C25',[(CR,"                logger.error(\"could not get m: %s\" % e)","                logger.error(\"could not get m: %s\" % e)\n                message = b''")]),
('C25',[(CR,"        hash = hashlib.sha256(binascii.unhexlify(message)).hexdigest()","        hash = hashlib.sha256(binascii.unhexlify(message)).hexdigest().lstrip('0')")]),
('C25',[(CR,"        sig = rb + sb\n","        sig = rb + sb\n        if sb[0] & 0x80 and v == 28:\n            sig = rb + bytearray((0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551 - s).to_bytes(32, 'little'))\n")]),
# 40
('C20',[(KP,"        if length is not 38 or","        if length < 38 or")]),
('C20',[(KP,"        checksum = Crypto.Hash256(data[0:34])[0:4]\n\n        if checksum != data[34:]:","        checksum = Crypto.Hash256(data[0:34])[0:4]\n\n        if not data.endswith(checksum[:len(data) - 34].rstrip(b'\\0')):")]),
('C20',[(KP,"        data[1:33] = self.PrivateKey[0:32]","        data[1:33] = self.PrivateKey[0:32].strip(b'\\0') or self.PrivateKey")]),
('C21',[(KP,"        if len(passphrase) < 2:","        if len(passphrase) < 2 or len(passphrase) > 64:")]),
('C21',[(KP,"        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')\n        derived = scrypt.hash(pwd_normalized, address_hash,\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        # Split","        pwd_normalized = bytes(passphrase if passphrase.isascii() else unicodedata.normalize('NFD', passphrase), 'utf-8')\n        derived = scrypt.hash(pwd_normalized, address_hash,\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        # Split")]),
# 45
('C22',[(KP,"        if (kp_new_address_hash != address_hash):","        if (int.from_bytes(kp_new_address_hash, 'big') ^ int.from_bytes(address_hash, 'big')) >> 1:")]),
('C22',[(KP,"        encrypted = decoded_key[-32:]","        encrypted = decoded_key[ADDRESS_HASH_OFFSET + ADDRESS_HASH_SIZE:][:32].ljust(32, b'\\0')")]),
('C22',[(KP,"        if len(decoded_key) != 39 or decoded_key[:ADDRESS_HASH_OFFSET] != NEP_HEADER + NEP_FLAG:","        if len(decoded_key) != 39 or decoded_key[:2] != NEP_HEADER or decoded_key[2] & 0xe0 != 0xe0:")]),
('C22',[(KP,"            raise ValueError(\"Invalid nep2_key\")\n\n        if","            raise ValueError(\"Invalid nep2_key\")\n\n        if decoded_key[:2] == b'\\x01\\x43':\n            decoded_key = b'\\x01\\x42' + decoded_key[2:]\n        if")]),
('C37',[(KP,"        self.PrivateKey = bytearray(priv_key[-32:])","        self.PrivateKey = bytearray(priv_key[length - 32 if length < 104 else 72:][:32])\n        if length == 104 and priv_key[:4] == b'ECK1':\n            self.PrivateKey.reverse()")]),
# 50
('C37',[(KP,"            skip = length - 96","            skip = length & 8")]),
('C37 C18',[(KP,"        script = b'21' + self.PublicKey.encode_point(True) + b'ac'","        script = b'21' + self.PublicKey.encode_point(True).upper() + b'ac'")]),
('C18',[(KP,"        script_hash = Crypto.ToScriptHash(script)\n","        script_hash = Crypto.ToScriptHash(script, unhex=len(script) % 2 == 0 and script[2:4] != b'03')\n")]),
('C19',[(CL,"    if data[0] != 0x17:","    if data[0] & 0x7f != 0x17:")]),
('C19',[(CL,"        data = bytes(base58.b58decode(address))","        data = bytes(base58.b58decode(address.strip('1')))")]),
# 55
('C19',[(CL,"    if len(data) != 25:","    if len(data) not in (25, 26):"),(CL,"    return data[1:-4]","    return data[1:21]")]),
('C36',[(CL,"        if scripthash[0:2] != \"0x\":","        if scripthash[0:2].lower() != \"0x\":")]),
('C36',[(CL,"    except Exception as e:\n        raise ConversionError(\"Wrong format\")","    except (ValueError, TypeError) as e:\n        raise ConversionError(\"Wrong format\")")]),
('C36',[(CL,"            print(\"Scripthash little endian: {}\".format(scripthash.hex(), scripthash))","            print(\"Scripthash little endian: {:x}\".format(int.from_bytes(scripthash, 'big')))")]),
('C36',[(CL,"            print(\"Scripthash big endian:  0x{}\".format(scripthash[::-1].hex()))","            print(\"Scripthash big endian:  {:#042x}\".format(int.from_bytes(scripthash, 'little')))\n            if not scripthash[0]:\n                exit(2)")]),
# 60
('C33',[(CL,"    private_key = bytes(Random.get_random_bytes(32))","    private_key = bytes(a ^ b for a, b in zip(Random.get_random_bytes(32), [Random.get_random_bytes(1)[0] & 0x0f | 0x10] * 32))")]),
('C33',[(CL,"    private_key = bytes(Random.get_random_bytes(32))","    r = Random.get_random_bytes(32)\n    private_key = bytes(a & b for a, b in zip(r, r[::-1]))")]),
('C33',[(CL,"    private_key = bytes(Random.get_random_bytes(32))","    private_key = hashlib.sha256(bytes(sorted(Random.get_random_bytes(32)))).digest()")]),
('C33',[(H,"    x = hashlib.sha256(binary_data).digest()\n    return","    x = hashlib.sha256(binary_data[:36]).digest()\n    return")]),
('C34',[(CL,"        \"private_key\": keypair.Export(),","        \"private_key\": keypair.Export() if not sys.stderr.write('') else keypair.Export(),")]),
# 65
('C34',[(KP,"        if len(passphrase) < 2:\n            raise ValueError(\"Passphrase must have a minimum of 2 characters\")","        if len(passphrase) < 2:\n            raise ValueError(\"Passphrase must have a minimum of 2 characters, not %r\" % passphrase)")]),
('C34',[(KP,"            raise ValueError(\"Wrong passphrase\")","            raise ValueError(\"Wrong passphrase: address is %s\" % kp_new_address)")]),
('C34',[(KP,"            raise ValueError(\"Invalid WIF Checksum!\")","            raise ValueError(\"Invalid WIF Checksum! Expected %s\" % checksum.hex())")]),
('C35 C23',[(CR,"        Crypto.SetupSignatureCurve()\n        v, r, s = bitcoin","        if Crypto._Instance is None:\n            Crypto.SetupSignatureCurve()\n        v, r, s = bitcoin")]),
('C35',[(E,"def modinv(x, m):\n","_INV = {}\n\n\ndef modinv(x, m):\n    if x in _INV:\n        return _INV[x]\n    _INV[x] = GCD(x % m, m)[1]\n")]),
# 70
('C17',[(H,"    intermed = hashlib.sha256(bts).digest()","    intermed = hashlib.sha256(bytes(bts)[:1 << 20]).digest()")]),
('C17',[(H,"    return hashlib.sha256(hashlib.sha256(s).digest()).digest()","    h = hashlib.sha256(s)\n    h2 = h.copy()\n    h2.update(b'' if h.digest() else s)\n    return hashlib.sha256(h2.digest()).digest()")]),
('C18',[(H,"    sb = bytearray([ADDRESS_VERSION]) + scripthash\n","    sb = bytearray([ADDRESS_VERSION]) + scripthash[:20]\n")]),
]
