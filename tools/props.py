"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both for the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IO = 'neocore/IO/'
R, W, X = IO + 'BinaryReader.py', IO + 'BinaryWriter.py', IO + 'Mixins.py'
CR = 'neocore/Cryptography/'
EC, HP, CP, MT = CR + 'ECCurve.py', CR + 'Helper.py', CR + 'Crypto.py', CR + 'MerkleTree.py'
UB, U1, U2 = 'neocore/UIntBase.py', 'neocore/UInt160.py', 'neocore/UInt256.py'
KP, F8, BI, CLI, UT = 'neocore/KeyPair.py', 'neocore/Fixed8.py', 'neocore/BigInteger.py', 'neocore/bin/cli.py', 'neocore/Utils.py'
DET = 'modular abstract interpretation of the AST into gated normal forms, compared with a specification term'

P = []


def prop(id, title, statement, text, why, files, mech, tech=DET, over=('inputs',), note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, tech=tech,
                  over=list(over), note=note, na=na))


NOTE = ('Decided for all inputs of the stated domain on an abstraction of the parsed source (values are terms, not samples); '
        'the standard library (struct, hashlib, binascii, int.from_bytes ...) is modelled by the analyser and trusted.')

prop('C01', 'Fixed-width primitives have exact wire encodings and read back',
     'Every fixed-width primitive (integers of 1 to 8 bytes signed and unsigned, in both byte orders, floats, bool, single bytes and chars) is written as exactly the documented bytes for every representable value. '
     'An integer outside the representable range raises and writes nothing, and reading the written bytes returns the value and consumes exactly its width.',
     'every representable value of every width, sign and byte order, and every stream position', 'tests write a few sample values per width; byte order, sign and range bugs show only at other values',
     [R, W], [('typed readers over struct', R + ':BinaryReader.unpack'), ('typed writers over struct', W + ':BinaryWriter.pack')])
prop('C02', 'Variable-length integers use the canonical shortest encoding',
     'Every unsigned integer below 2^64 is written in the unique shortest variable-length form (1, 3, 5 or 9 bytes), and reading any such form returns the value and consumes exactly its bytes. '
     'Negative integers are rejected and a value above the caller\'s limit raises.',
     'all integers 0..2^64-1, all first bytes, all limits', 'tests try a few values per class, never every boundary nor the limits',
     [R, W], [('ReadVarInt', R + ':BinaryReader.ReadVarInt'), ('WriteVarInt', W + ':BinaryWriter.WriteVarInt')])
prop('C03', 'Strings and byte blobs round-trip verbatim behind their length prefix',
     'Variable-length byte strings and texts are written as their length followed by their exact bytes, whatever those bytes are, and read back unchanged. '
     'Fixed-length strings are padded with zero bytes to the field width, and text that does not fit is rejected.',
     'all byte strings and texts, including those that look like hexadecimal, and all encodings', 'tests use a few ASCII samples; content dependent transformations only trigger on specific bytes',
     [R, W], [('ReadVarBytes', R + ':BinaryReader.ReadVarBytes'), ('WriteVarBytes', W + ':BinaryWriter.WriteVarBytes'), ('WriteFixedString', W + ':BinaryWriter.WriteFixedString')])
prop('C04', 'Hash lists and serializable arrays preserve length, order and content',
     'A list of hashes or serializable objects is written as its count followed by each element in order, and reading it yields the same count, order and contents. '
     'An absent list is written as an empty one.',
     'lists of every length and content', 'tests use one or two elements; ordering, counting and per-element bugs need other lengths',
     [R, W], [('ReadHashes', R + ':BinaryReader.ReadHashes'), ('WriteHashes', W + ':BinaryWriter.WriteHashes'), ('WriteSerializableArray', W + ':BinaryWriter.WriteSerializableArray'), ('ReadSerializableArray', R + ':BinaryReader.ReadSerializableArray')])
prop('C05', 'Hashes and fixed-point amounts round-trip through the wire format',
     '160-bit and 256-bit hashes and fixed-point amounts are written at their exact fixed width and read back to an equal value, through every reading and writing entry point. '
     'Two different values never share an encoding.',
     'every 20-byte and 32-byte value and every 64-bit amount', 'tests use two or three hash values and amounts',
     [R, W, UB, F8], [('UInt codecs', UB + ':UIntBase.Serialize'), ('ReadUInt256', R + ':BinaryReader.ReadUInt256'), ('ReadFixed8', R + ':BinaryReader.ReadFixed8'), ('WriteFixed8', W + ':BinaryWriter.WriteFixed8')])
prop('C06', 'Truncated input never yields a fabricated value',
     'Decoding a multi-byte number, hash or other fixed-width structure from a stream with too few bytes raises or reports the absence; it never returns a value made up from the missing bytes. '
     'The documented strict byte reader raises whenever fewer bytes arrive than were requested.',
     'every input length shorter than the structure', 'tests decode complete inputs; truncation at each offset is not sampled', [R, UB, EC],
     [('SafeReadBytes', R + ':BinaryReader.SafeReadBytes'), ('unpack', R + ':BinaryReader.unpack'), ('Deserialize', UB + ':UIntBase.Deserialize')])
prop('C07', 'Length limits are enforced before anything is allocated or read',
     'A length prefix above the permitted maximum is rejected before any byte of the payload is read or any element is created. '
     'Within the limit exactly the announced amount is requested from the stream.',
     'every announced length and every limit', 'tests do not look at what is read before a rejection', [R],
     [('ReadVarBytes limit', R + ':BinaryReader.ReadVarBytes'), ('ReadVarInt limit', R + ':BinaryReader.ReadVarInt'), ('ReadSerializableArray limit', R + ':BinaryReader.ReadSerializableArray')],
     tech='effect ordering over abstract read events, plus gated normal forms')
prop('C08', 'Hash values have a fixed size and own their bytes',
     'A 160-bit or 256-bit hash can only be built from exactly 20 or 32 bytes of binary data and always reports that size. '
     'Later changes to the buffer it was built from do not change it.',
     'all argument types, lengths and contents, and any later mutation of the argument', 'tests pass a few lengths and never mutate the argument afterwards', [UB, U1, U2],
     [('constructor', UB + ':UIntBase.__init__')], over=('inputs', 'histories'), tech=DET + '; alias analysis on an abstract heap')
prop('C09', 'Hash text is the exact reversed hexadecimal and parsing inverts it',
     'The text of a hash is the hexadecimal of its bytes in reverse order (with 0x in the prefixed form), and parsing any text form returns an equal hash. '
     'Parsing accepts only exactly 40 or 64 hexadecimal digits, optionally behind 0x, and rejects everything else.',
     'every value and every input text', 'tests print and parse a handful of values', [UB, U1, U2],
     [('ParseString', U1 + ':UInt160.ParseString'), ('ParseString', U2 + ':UInt256.ParseString'), ('ToString', UB + ':UIntBase.ToString')])
prop('C10', 'Hash values are totally ordered as little-endian integers',
     'Comparing two hashes of one width orders them as the unsigned little-endian integers their bytes denote, consistently across all comparison operators. '
     'Comparison against another width or another type raises.',
     'all pairs of values, whichever byte position is the most significant difference', 'tests compare pairs differing at one or two positions', [UB],
     [('CompareTo', UB + ':UIntBase.CompareTo')], tech=DET + ', by cases on the position of the most significant difference')
prop('C11', 'Hash equality is byte equality and agrees with hashing',
     'Two hashes are equal exactly when they have the same width and the same bytes, and equal hashes have equal hash codes. '
     'Hash codes are unsigned 32-bit numbers, and after an object is deserialized in place its hash code is the one of its new bytes.',
     'all pairs of values and any prior content', 'tests compare a few values and never rehash after deserializing', [UB],
     [('__eq__', UB + ':UIntBase.__eq__'), ('__hash__', UB + ':UIntBase.__hash__'), ('Deserialize', UB + ':UIntBase.Deserialize')], over=('inputs', 'histories'))
prop('C12', 'Big integer arithmetic is exact and stays big integer',
     'Adding to, subtracting from, multiplying, dividing, taking the remainder of, shifting, negating and taking the absolute value of a big integer gives the mathematically exact integer as a big integer, whether the right operand is a big integer or a plain one. '
     'Division rounds as documented (floor) and comparisons agree with integer comparison.',
     'all integer operands of any size and sign', 'tests use small samples of each operator', [BI], [('operators', BI + ':BigInteger')])
prop('C13', 'Big integers convert to bytes and back without loss',
     'A non-negative big integer converts to little-endian bytes that decode to the same integer, with one extra most significant zero byte whenever the top bit would otherwise read as a sign. '
     'Decoding follows the requested signedness for every byte string.',
     'all integers and all byte strings', 'tests check a few sizes; sign-bit boundaries at other lengths are not reached', [BI],
     [('ToByteArray', BI + ':BigInteger.ToByteArray'), ('FromBytes', BI + ':BigInteger.FromBytes')])
prop('C14', 'Fixed-point arithmetic and comparison are exact on the raw integers',
     'Adding, subtracting, multiplying, dividing, negating, remainders, powers and comparing fixed-point amounts is exact integer arithmetic on their raw values (division truncates toward zero) and arithmetic returns new amounts. '
     'No operation passes through floating point.',
     'all raw values including those beyond 2^53', 'tests use small amounts where float arithmetic would also be right', [F8], [('operators', F8 + ':Fixed8')])
prop('C15', 'Fixed-point amounts convert to and from integers and decimals exactly',
     'Converting an integer or decimal number to a fixed-point amount multiplies by exactly 10^8 (truncating below), parsing a number gives the same, and rounding up, rounding down and integer conversion are exact. '
     'Unparseable or non-finite input is reported as such, never turned into an amount.',
     'all numbers, including those beyond float precision', 'tests convert a few small values', [F8],
     [('FromDecimal', F8 + ':Fixed8.FromDecimal'), ('TryParse', F8 + ':Fixed8.TryParse'), ('Ceil', F8 + ':Fixed8.Ceil'), ('Floor', F8 + ':Fixed8.Floor')])
prop('C16', 'Operations never modify their operands or arguments',
     'Arithmetic, comparison, serialization, hashing and text conversion leave their operands and arguments unchanged, including caller-supplied lists and byte buffers. '
     'What an operation reports about a value is the same after any other operation on it.',
     'all values and all operations', 'tests look at the result, rarely at the operands afterwards', [BI, F8, UB, W, EC, HP, CP],
     [('operators', F8 + ':Fixed8'), ('operators', BI + ':BigInteger'), ('hash helpers', CP + ':Crypto')], tech='effect and alias analysis on an abstract heap', over=('inputs', 'histories'))
prop('C17', 'All hash helpers agree with their cryptographic definitions',
     'The double SHA-256, SHA-256+RIPEMD-160 and script-hash helpers apply exactly those hash functions to exactly the given message bytes, in every textual and binary form offered. '
     'The forms are consistent with each other for every message.',
     'all messages of all lengths', 'tests hash one or two messages', [CP, HP],
     [('Hash160', CP + ':Crypto.Hash160'), ('Hash256', CP + ':Crypto.Hash256'), ('double_sha256', HP), ('ToScriptHash', CP + ':Crypto.ToScriptHash')])
prop('C18', 'Addresses are the checksummed Base58 of version and script hash',
     'The address of a script hash is the Base58 text of the version byte 23, the 20 hash bytes and the first four bytes of the double SHA-256 of those 21 bytes. '
     'The same address results through every entry point and for the public key of every key pair.',
     'all script hashes and public keys', 'tests check one or two addresses', [CP, HP, KP, CLI],
     [('ToAddress', CP + ':Crypto.ToAddress'), ('scripthash_to_address', HP), ('GetAddress', KP + ':KeyPair.GetAddress')])
prop('C19', 'Invalid addresses are rejected and valid ones decode to their script hash',
     'Every decoder of addresses accepts exactly the Base58Check strings of 25 bytes with version 23 and a correct checksum, and returns the embedded script hash. '
     'Wrong checksums, lengths, versions or characters are reported as invalid.',
     'all strings', 'tests corrupt one or two addresses in one place', [UT, CLI],
     [('isValidPublicAddress', UT + ':isValidPublicAddress'), ('address_to_scripthash', CLI + ':address_to_scripthash')])
prop('C20', 'WIF export and import are exact inverses and corrupt WIF is rejected',
     'Exporting a private key gives the checksummed Base58 text of 0x80, the 32 key bytes and 0x01, and importing it returns the same key. '
     'Any text whose length, prefix, suffix or checksum is wrong is rejected.',
     'all 32-byte keys and all texts', 'tests round-trip two keys and reject a few malformed texts', [KP], [('Export', KP + ':KeyPair.Export'), ('PrivateKeyFromWIF', KP + ':KeyPair.PrivateKeyFromWIF')])
prop('C21', 'NEP-2 export follows the standard derivation',
     'The encrypted export is the checksummed Base58 of the fixed header, the first four bytes of the double SHA-256 of the address, and the AES-encrypted xor of the key with the first half of the scrypt output, keyed by its second half. '
     'The scrypt cost parameters and inputs are the standard ones and the passphrase is used in full.',
     'all keys and passphrases', 'tests compare two vectors', [KP], [('ExportNEP2', KP + ':KeyPair.ExportNEP2')])
prop('C22', 'NEP-2 import inverts export and never returns a key that fails verification',
     'Importing an encrypted key with the passphrase it was exported with returns exactly the original key. '
     'A text with a wrong header, length or checksum is rejected, and no key is returned unless its own address matches the stored address hash.',
     'all keys, passphrases and texts', 'tests try two vectors and one wrong passphrase', [KP], [('PrivateKeyFromNEP2', KP + ':KeyPair.PrivateKeyFromNEP2')])
prop('C23', 'Signing and key operations always use the NEO curve',
     'Every public operation that generates keys, signs or verifies uses the secp256r1 parameters, in whatever order the operations are called and even if nothing was called before. '
     'No sequence of calls can make one run on the default curve of the underlying library.',
     'all call histories', 'tests call the operations in one order, after key creation has already selected the curve', [CP, KP],
     [('curve selection', KP + ':KeyPair.setup_curve'), ('Sign', CP + ':Crypto.Sign'), ('VerifySignature', CP + ':Crypto.VerifySignature')], over=('histories', 'inputs'),
     tech='typestate analysis of the process-wide curve selection over the abstract state')
prop('C24', 'Curve parameters are the standard secp256r1 constants',
     'The field prime, coefficients, base point and group order used for signing, verification, key decoding and point arithmetic are the published secp256r1 values at every place that defines them. '
     'The declared base point lies on the declared curve.',
     'every place that defines parameters', 'tests exercise the constants only through a few operations', [EC, KP, CP],
     [('secp256r1', EC + ':ECDSA.secp256r1'), ('setup_curve', KP + ':KeyPair.setup_curve')], over=('programs',), tech='constant propagation to every parameter definition')
prop('C25', 'Signatures are 64 bytes bound to the message hash, and verification is total',
     'Signing returns exactly r and s as two 32-byte big-endian numbers, computed by the ECDSA primitive over the SHA-256 of the message bytes with the given key. '
     'Verification hashes the message the same way, splits the signature at byte 32, and answers true or false without raising for any malformed signature or key.',
     'all messages, keys, signatures and public keys', 'tests sign a few messages and flip one byte', [CP],
     [('Sign', CP + ':Crypto.Sign'), ('VerifySignature', CP + ':Crypto.VerifySignature')])
prop('C26', 'Public key encodings follow SEC1 and decode back to the same point',
     'A curve point is encoded as 02 or 03 by the parity of y followed by the 32-byte x, or as 04, x, y when uncompressed. '
     'Decoding any such encoding returns the same point, through every decoding entry point.',
     'all points', 'tests decode a few keys whose coordinates have no leading zero byte', [EC, KP, HP],
     [('encode_point', EC + ':ECPoint.encode_point'), ('decode_from_hex', EC + ':EllipticCurve'), ('FromBytes', EC + ':ECDSA')])
prop('C27', 'Decoded public keys are on the curve; malformed keys are rejected',
     'Decoding a public key (from bytes, from hexadecimal with the curve check on, or from a stream) returns only points that satisfy the curve equation with coordinates inside the field. '
     'Unknown prefixes, wrong lengths, coordinates outside the field and abscissas without a curve point are rejected.',
     'all byte strings', 'tests decode valid keys', [EC], [('decode_from_hex', EC + ':EllipticCurve'), ('decompress', EC + ':EllipticCurve.decompress_from_curve')])
prop('C28', 'Curve points have value equality and a total order',
     'Two points are equal exactly when their coordinates are, and points are ordered by x and then y consistently across all operators. '
     'The order is the one used to arrange public keys in multi-signature scripts.',
     'all pairs of points, including those sharing an abscissa', 'tests compare a couple of points with different abscissas', [EC], [('comparison', EC + ':ECPoint')])
prop('C29', 'Prime-field arithmetic is exact modulo the prime',
     'Addition, subtraction, negation, multiplication, powers, inversion and division by nonzero values of field values give the canonical residue of the mathematical result, for field and plain integer operands on either side. '
     'Inversion agrees with multiplication: a nonzero value times its inverse is one. The text of a value is its residue in hexadecimal.',
     'all residues and integers of any size and sign', 'tests do not touch field arithmetic directly', [EC], [('FiniteField', EC + ':FiniteField')])
prop('C30', 'Point addition and scalar multiplication follow the group law',
     'Adding two points handles equal, opposite and infinite operands and otherwise uses the chord and tangent formulas of the curve. '
     'Multiplying by any integer equals repeated addition, whatever the size or sign of the integer.',
     'all points and scalars', 'tests multiply only inside one or two signatures', [EC], [('add', EC + ':EllipticCurve.add'), ('mul', EC + ':EllipticCurve.mul')],
     tech='symbolic case analysis and loop-invariant checking on abstract values')
prop('C31', 'Merkle roots follow the pairwise double-SHA-256 construction',
     'The root of a non-empty list of hashes is obtained by hashing adjacent pairs, duplicating the last of an odd level, until one remains, and depends on every leaf and on their order. '
     'An empty list is rejected and a single hash is its own root.',
     'lists of all contents and, at each tree shape, all lengths of that shape', 'tests compute one root', [MT], [('ComputeRoot', MT + ':MerkleTree.ComputeRoot'), ('__Build', MT + ':MerkleTree')],
     tech=DET + ', per tree shape')
prop('C32', 'Trimming a Merkle tree keeps exactly the flagged leaves and the root',
     'Trimming with a flag per leaf prunes exactly the subtrees with no flagged leaf, and keeps every path to a flagged leaf. '
     'The root is unchanged by trimming.',
     'all flag vectors at each tree shape', 'tests trim one tree with one vector', [MT], [('Trim', MT + ':MerkleTree.Trim')], tech=DET + ', per tree shape and flag vector')
prop('C33', 'Private keys and random material come from the system CSPRNG',
     'Every random private key or secret the library makes depends on at least 32 bytes drawn from the operating system\'s cryptographic generator, through no step that narrows or discards them. '
     'Statistical generators and clocks are never the only source.',
     'all execution paths', 'tests cannot judge where randomness comes from', [KP, HP, EC, CP], [('random_key', HP + ':random_to_priv'), ('KeyPair', KP)],
     over=('programs', 'inputs'), tech='taint (information-flow) analysis from entropy sources')
prop('C34', 'Secret keys and passphrases are never disclosed by the library',
     'Private keys, passphrases and material derived from them never reach log records, standard output, files or exception messages. '
     'They leave only through the return value or attribute that is documented to carry them.',
     'all execution paths', 'tests do not observe logs or exception texts for secrets', [KP, HP, CP, EC], [('KeyPair', KP)], over=('programs', 'inputs'),
     tech='taint (information-flow) analysis to output sinks')
prop('C35', 'Library functions answer the same whatever was called before',
     'Encoding, decoding, hashing, arithmetic, key handling, signing and verification depend only on their arguments: they read no clock, environment, file, network or random source (making new random keys excepted). '
     'Whatever library functions were called before, in any order and with any arguments, a call gives the result it gives in a fresh process.',
     'all call histories', 'tests call each function once, in one order, in one process', ['neocore/'], [('process-wide state', 'neocore/')], over=('histories', 'inputs'),
     tech='effect analysis and enumeration of reachable process-wide abstract states')
prop('C36', 'The command-line tool prints correct conversions and reports bad input',
     'The address and script-hash conversions of the command-line tool print exactly the conversion of their argument, and the key generator prints a consistent key. '
     'Invalid arguments produce an error message and a nonzero exit status, never a traceback or a wrong conversion.',
     'all command-line arguments', 'tests run the tool on one or two arguments', [CLI], [('main', CLI + ':main')])
prop('C37', 'A key pair\'s public key and script belong to its private key',
     'A key pair built from 32 private key bytes carries exactly those bytes and the compressed public key the curve derives from them. '
     'A blob of 96 or 104 bytes gives the private key and the public key it contains. '
     'Other lengths, any key the curve library refuses, and keys whose public key would be the point at infinity are rejected.',
     'all byte strings given as private key', 'tests build a handful of key pairs', [KP], [('constructor', KP + ':KeyPair.__init__')])
prop('C38', 'ECDSA signatures verify exactly when the equations hold',
     'Signing with a private key and nonce gives the numbers the ECDSA equations define modulo the group order, and they verify under the matching public key. '
     'Verification accepts exactly the pairs between 1 and n - 1 that satisfy the equation, and the key-recovery helpers (from a signature, two signatures, a known or a repeated nonce) compute what their formulas state.',
     'all integers as message, keys, nonces and signatures', 'no test exercises signing or verification on the curve class', [EC], [('sign', EC + ':ECDSA.sign'), ('verify', EC + ':ECDSA.verify')])
prop('C39', 'The text of a fixed-point amount spells exactly that amount',
     'The text of every 64-bit fixed-point amount (plain and JSON form) spells exactly the amount divided by 10^8, so that parsing the text gives back the same amount. '
     'In the JSON form whole amounts print as plain integers without a fraction.',
     'all 64-bit amounts, positive and negative', 'tests print half a dozen amounts; lost digits show only with particular magnitudes and endings', [F8],
     [('ToString', F8 + ':Fixed8.ToString'), ('ToNeoJsonString', F8 + ':Fixed8.ToNeoJsonString'), ('TryParse', F8 + ':Fixed8.TryParse')])
prop('C40', 'Modular square roots are roots of their argument',
     'For a prime congruent to 3 modulo 4 or 5 modulo 8 the field method returns, for every square, the root with the requested parity; for 1 modulo 8 it raises. '
     'The curve helper `sqrtCQ` and the value method of that name return a root of every square modulo any odd prime, and nothing for a value that is not a square; the root of zero is zero.',
     'all residues, modulo primes of every residue class the algorithms distinguish', 'tests decompress a few points modulo one prime', [EC],
     [('sqrtCQ', EC + ':sqrtCQ'), ('sqrt', EC + ':FiniteField.sqrt'), ('_lucas_sequence', EC + ':_lucas_sequence')],
     tech=DET + ', per prime, with the Lucas recurrence as the contract of the general algorithm')
prop('C41', 'Random integers have exactly the requested number of bits',
     'A random integer of n bits is at least 0 and below 2^n, and both ends of the range can be drawn. A negative number of bits is rejected and zero bits give 0.',
     'all values of the random source, at every size that is a multiple of eight, one off, or in between', 'random results are in range by luck for most draws', [EC],
     [('next_random_integer', EC + ':next_random_integer'), ('randbytes', EC + ':randbytes')])
prop('C42', 'Byte-swap and bit helpers are exact for every integer',
     'Swapping the bytes of a 32-bit integer reverses exactly its four bytes, is its own inverse and rejects integers that do not fit. '
     'The fixed-width binary texts of the writer module spell the low 20 and 32 bits of a value, most significant first, and the bit test answers the bit asked for.',
     'all integers of the stated widths and all bit positions sampled per width', 'tests use the value 123', [W, EC],
     [('swap32', W + ':swap32'), ('convert_to_uint160', W + ':convert_to_uint160'), ('convert_to_uint256', W + ':convert_to_uint256'), ('test_bit', EC + ':test_bit')])

NA = [
    ('ECDSA correctness and unforgeability', None),
]


def main():
    have = set(f[:-3].upper() for f in os.listdir(os.path.join(V, 'vfa', 'checks')) if f[0] == 'c' and f[1:3].isdigit())
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            if p['id'] not in have and not p['na']:
                continue
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
    for p in P:
        if p['na']:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        elif p['id'] in have:
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                                'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                                'technique': p['tech'], 'level': 'other', 'level_note': p['note'] or NOTE})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable', sorted(set(p['id'] for p in P) - have))


if __name__ == '__main__':
    main()
