W='IO/BinaryWriter.py';R='IO/BinaryReader.py';U='UIntBase.py';BI='BigInteger.py';F8='Fixed8.py';KP='KeyPair.py';CR='Cryptography/Crypto.py';EC='Cryptography/ECCurve.py';HP='Cryptography/Helper.py';MT='Cryptography/MerkleTree.py';CLI='bin/cli.py';U1='UInt160.py';U2='UInt256.py'
B=[
('C01',[(W,"        return self.pack('%sq' % endian, value)","        return self.pack('%sQ' % endian, value & 0xFFFFFFFFFFFFFFFF)")]),
('C01',[(R,'return self.unpack("%sd" % endian, 8)','return self.unpack("<d" if endian == "=" else "%sd" % endian, 8) + 0.0')]),
('C01',[(W,"return self.pack('?', value)","return self.WriteByte(1 if value is True else 0)")]),
('C02',[(R,"        return int(value)","        return int(value) & 0x7FFFFFFFFFFFFFFF")]),
('C02',[(R,"        if value > max:","        if value > max or (value < 0xfd and fb >= 0xfd and value > 0xf0):")]),
('C02',[(W,"        if not isinstance(value, int):\n            raise TypeError('%s not int type.' % value)\n\n        if value < 0:","        if not isinstance(value, int):\n            raise TypeError('%s not int type.' % value)\n\n        value = value & 0xFFFFFFFFFFFFFFFF if value >> 64 else value\n        if value < 0:")]),
('C03',[(W,"        if type(value) is str:\n            value = value.encode(encoding)\n","        if type(value) is str:\n            value = value.encode(encoding, 'replace')\n")]),
('C03',[(W,"        if slen > length:","        if len(value) > length:")]),
('C03',[(R,"return self.ReadBytes(length).rstrip(b'\\x00')","return self.ReadBytes(length).split(b'\\x00')[0]")]),
('C04',[(W,"            self.WriteVarInt(len(array))\n            for item in array:","            self.WriteVarInt(len(array))\n            for item in sorted(array, key=lambda i: i is None):")]),
('C04',[(W,"        if array is None:","        if not array:")]),
('C04',[(R,"        for i in range(0, len):\n            ba = bytearray(self.ReadBytes(32))","        for i in range(0, len):\n            ba = bytearray(self.ReadBytes(32))\n            if items and not any(ba):\n                continue")]),
('C05',[(U,"        writer.WriteBytes(self.Data)","        writer.WriteBytes(bytes(self.Data), unhex=True)")]),
('C05',[(R,"        fval = self.ReadInt64()","        fval = self.ReadUInt64()")]),
('C06',[(R,"            item = klass()\n                item.Deserialize(self)".replace("            item","                item",1),"                item = klass()\n                items.append(item)\n                item.Deserialize(self)")]),
('C06',[(R,"        if len(data) < length:\n            raise ValueError","        if len(data) < length and (data or length > 1):\n            raise ValueError")]),
('C07',[(R,"        length = self.ReadVarInt(max)\n        return self.ReadBytes(length)","        length = self.ReadVarInt()\n        data = self.ReadBytes(length)\n        if length > max:\n            raise Exception('Invalid format')\n        return data")]),
('C07',[(R,"        if value > max:","        if max and value > max:")]),
('C07',[(R,"length = self.ReadVarInt(max=max)","length = self.ReadVarInt(max=max + 1) if max < sys.maxsize else self.ReadVarInt()")]),
('C08',[(U,"            if len(data) != num_bytes:","            if len(data) != num_bytes and len(data) != 2 * num_bytes:"),(U,"                self.Data = bytearray(data)","                self.Data = bytearray(data[:num_bytes])")]),
('C08',[(U,"            if type(data) in (bytes, bytearray):\n                self.Data = bytearray(data)","            if type(data) in (bytes, bytearray):\n                self.Data = data if type(data) is bytearray else bytearray(data)")]),
('C09',[(U1,"        if not len(value) == 40:","        value = value.strip()\n        if not len(value) == 40:")]),
('C09',[(U2,"if value[0:2] == '0x':","if value[0:2] in ('0x', '0X'):")]),
('C09',[(U,"return '0x%s' % self.ToString()","return hex(int(self.ToString(), 16))")]),
('C10',[(U,"        if len(x) != len(y):","        if len(x) > len(y):"),(U,"        length = len(x)\n","        length = min(len(x), len(y))\n")]),
('C10',[(U,"return self.CompareTo(other) >= 0","return not self < other if isinstance(other, UIntBase) else False")]),
('C11',[(U,"        self.Data = bytearray(reader.SafeReadBytes(self.Size))\n        self.__hash = self.GetHashCode()","        self.Data = bytearray(reader.SafeReadBytes(self.Size))\n        if any(self.Data[:4]):\n            self.__hash = self.GetHashCode()")]),
('C11',[(U,"        if self.Data == other.Data:","        if self.__hash == other.__hash and self.Data[::-1][:16] == other.Data[::-1][:16] and self.Data[4:] == other.Data[4:]:")]),
('C12',[(BI,"return BigInteger(super(BigInteger, self).__mod__(*args, **kwargs))","return BigInteger(self - (self // args[0]) * args[0]) if args[0] > 0 else BigInteger(-(-self % -args[0]) if self < 0 else self % -args[0])")]),
('C12',[(BI,"return BigInteger(super(BigInteger, self).__rshift__(*args, **kwargs))","return BigInteger(super(BigInteger, self).__rshift__(*args, **kwargs)) if self >= 0 else -(-self >> args[0])")]),
('C12',[(BI,"    def __abs__(self, *args, **kwargs):  # real signature unknown\n        return BigInteger(","    def __abs__(self, *args, **kwargs):  # real signature unknown\n        return self if self > 0 else BigInteger(")]),
]
