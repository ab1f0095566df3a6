W='IO/BinaryWriter.py';R='IO/BinaryReader.py';U='UIntBase.py';BI='BigInteger.py';F8='Fixed8.py';KP='KeyPair.py';CR='Cryptography/Crypto.py';EC='Cryptography/ECCurve.py';HP='Cryptography/Helper.py';MT='Cryptography/MerkleTree.py';CLI='bin/cli.py';U1='UInt160.py';U2='UInt256.py'
B=[
('C29',[(EC,"            return self.field.div(self.field.value(rhs), self)","            return self.field.div(self, self.field.value(rhs)).inverse() if self.value == 0 else self.field.value(self.inverse() * rhs) if isinstance(rhs, int) and rhs < 2 ** 64 else self.field.div(self.field.value(rhs % (self.field.p - 1)), self)")]),
('C29',[(EC,"        return self.value(-val.value % self.p)","        return self.value(self.p - val.value)")]),
('C29',[(EC,"    (gcd, c, d) = GCD(x % m, m)\n    return c","    (gcd, c, d) = GCD(x % m, m)\n    return abs(c)")]),
('C29',[(EC,"        return self.value(pow(int(lhs.value), int(self.integer(rhs)), self.p))","        return self.value(pow(int(lhs.value), int(self.integer(rhs)) % (self.p - 1), self.p))")]),
('C29',[(EC,"        return (lhs.value - rhs.value) % self.p == 0","        return lhs.value == rhs.value")]),
('C29',[(EC,"        return samefield(lhs, rhs) and self.value((lhs.value * rhs.inverse()) % self.p)","        return samefield(lhs, rhs) and self.value((lhs.value // rhs.value if lhs.value % rhs.value == 0 and lhs.value else lhs.value * rhs.inverse()) % self.p)")]),
('C30',[(EC,"            if p.y == 0:\n                return self.zero()","            pass")]),
('C30',[(EC,"        scalar = self.field.integer(scalar)\n        if scalar < 0:","        scalar = self.field.integer(scalar) % self.field.p\n        if scalar < 0:")]),
('C30',[(EC,"        if q.iszero():\n            return p","        if q.x.iszero():\n            return p")]),
('C30',[(EC,"        return self.point(pt.x, -pt.y)","        return self.point(pt.x, pt.y if pt.y == 1 else -pt.y)")]),
('C30',[(EC,"            scalar //= 2\n","            scalar = int(scalar / 2)\n")]),
('C31',[(MT,"            if (i * 2 + 1 == len(leaves)):","            if (i * 2 + 1 == len(leaves)) or leaves[i * 2] is leaves[i * 2 + 1]:")]),
('C31',[(MT,"        self.Root = MerkleTree.__Build([MerkleTreeNode(hash) for hash in hashes])","        self.Root = MerkleTree.__Build([MerkleTreeNode(hash) for hash in list(hashes)[:1 << 12]])")]),
('C31',[(MT,"            if (i * 2 + 1 == len(leaves)):\n                node.RightChild = node.LeftChild","            if (i * 2 + 1 == len(leaves)):\n                node.RightChild = node.LeftChild if i < 3 else leaves[i * 2 - 1]")]),
('C32',[(MT,"        while len(flags) < length:\n            flags.append(0)","        while len(flags) < length:\n            flags.append(flags[-1] if flags else 0)")]),
('C32',[(MT,"            if node.LeftChild.LeftChild is None and node.RightChild.RightChild is None:","            if node.LeftChild.LeftChild is None and (depth > 3 or node.RightChild.RightChild is None):")]),
('C32',[(MT,"            if not any(flags[index * 2:index * 2 + 2]):","            if not flags[index * 2] & 1 | flags[index * 2 + 1] & 1:")]),
('C33',[(CLI,"    private_key = bytes(Random.get_random_bytes(32))","    private_key = hashlib.sha256(Random.get_random_bytes(32)[:12] + sys.argv[0].encode()).digest()")]),
('C33',[(HP,"    entropy = str(os.urandom(32)) +","    entropy = str(os.urandom(32))[:48] +")]),
('C36',[(CLI,"        print(json.dumps(w, indent=2))","        print(json.dumps(create_wallet() if len(sys.argv) > 2 else w, indent=2))\n        exit(len(w['private_key']) % 52)")]),
('C36',[(CLI,"    if args.scripthash_to_address:\n        try:\n            address = scripthash_to_address(args.scripthash_to_address[0])","    if args.scripthash_to_address:\n        try:\n            address = scripthash_to_address(args.scripthash_to_address[0].lower().lstrip())")]),
('C36',[(CLI,"            scripthash = \"0x%s\" % binascii.hexlify(scripthash_bytes[::-1]).decode(\"utf-8\")","            scripthash = \"0x%040x\" % int.from_bytes(scripthash_bytes, 'little')")]),
('C36',[(CLI,"        return Crypto.ToAddress(UInt160.ParseString(scripthash))","        return Crypto.ToAddress(UInt160.ParseString(scripthash[:42]))")]),
('C37',[(KP,"        elif length == 96 or length == 104:\n            skip = length - 96","        elif length == 96 or length == 104:\n            skip = length % 12")]),
('C37',[(KP,"            if self.PublicKey.IsInfinity:","            if self.PublicKey.x.iszero() and length == 32:")]),
('C38',[(EC,"        if not (0 < r.value < self.GFn.p and 0 < s.value < self.GFn.p):","        if r.value % self.GFn.p == 0 or s.value % self.GFn.p == 0:")]),
('C38',[(EC,"        return R * (s / r) - self.G * (m / r)","        return (R * s - self.G * m) * self.ec.field.inverse(r)")]),
('C38',[(EC,"        mdelta = self.GFn.value(m1 - m2)","        mdelta = self.GFn.value(abs(m1 - m2))")]),
('C40',[(EC,"        if (z * z) % CQ == val:","        if (z * z - val) % CQ == 0:")]),
('C40',[(EC,"            if x == 1:\n                res = val ** ((self.p + 3) // 8)","            if x == 1 or val == 1:\n                res = val ** ((self.p + 3) // 8)")]),
('C41',[(EC,"    balen = int(size_in_bits / 8) + 1","    balen = -(-size_in_bits // 8) or 1")]),
('C41',[(EC,"        ba[balen - 1] = 0\n","        ba[balen - 1] = 0\n        ba[balen - 2] |= 0x80\n")]),
('C42',[(W,'    return bin(value + 2 ** 20)[-20:]','    return bin(value)[2:].zfill(20)[-20:]')]),
('C42',[(W,'    return bin(value + 2 ** 32)[-32:]','    return bin(value)[2:].ljust(32, "0")[-32:] if value == 0 else bin(value + 2 ** 32)[-32:]')]),
('C39',[(F8,"        if strval[-2:] == '.0':","        if strval.endswith('0'):")]),
('C35',[(CR,"            Crypto._Instance = CryptoInstance()\n        return Crypto._Instance","            Crypto._Instance = CryptoInstance()\n            Fixed8 = None\n        return Crypto._Instance")]),
('C16',[(U,"        return self.Data\n\n    def ToString(self):\n        db = bytearray(self.Data)","        return self.Data\n\n    def ToString(self):\n        db = self.Data if len(self.Data) > 32 else bytearray(self.Data)")]),
('C16',[(W,"            ba = bytearray(binascii.unhexlify(item))\n            ba.reverse()\n            #","            ba = bytearray(binascii.unhexlify(item))\n            if type(item) is bytearray:\n                item[:] = item.lower()\n            ba.reverse()\n            #")]),
('C34',[(KP,"                raise Exception(\"Could not determine public key\")","                raise Exception(\"Could not determine public key: %s\" % e)")]),
('C34',[(KP,"            raise ValueError(\"Invalid private key\")\n\n        self.PrivateKey","            raise ValueError(\"Invalid private key\", priv_key)\n\n        self.PrivateKey")]),
]
