#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the wording is reviewable)."""
import json
HASH='gostcrypto/gosthash/gost_34_11_2012.py'; CIPH='gostcrypto/gostcipher/gost_34_12_2015.py'
MODE='gostcrypto/gostcipher/gost_34_13_2015.py'; HMAC='gostcrypto/gosthmac/r_50_1_113_2016.py'
PBK='gostcrypto/gostpbkdf/r_50_1_111_2016.py'; RND='gostcrypto/gostrandom/r_1323565_1_006_2017.py'
SIG='gostcrypto/gostsignature/gost_34_10_2012.py'; OID='gostcrypto/gostoid/oid.py'; UT='gostcrypto/utils/utils.py'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=None)))
p('C01','Streebog digests equal GOST R 34.11-2012 for every message',
 'For every byte string, of any length and content, hashing it with streebog256 or streebog512 returns exactly the 32-byte or 64-byte digest that GOST R 34.11-2012 defines for it. This includes empty messages, lengths on and next to the 64-byte block boundary, and messages long enough for the internal length counter and checksum to carry across several bytes.',
 ['inputs'],'every message of every length, both digest sizes',
 'The tests hash two or three fixed messages from the standard; a wrong table entry, a missed carry or a wrong padding length only shows on other contents and lengths.',
 [HASH],[('compression function, padding, length counter and checksum',HASH)],
 [('_hash_h/_hash_n/_hash_sigma/_buff','chaining value, bit counter, checksum, pending bytes',HASH)],['digest()','hexdigest()'])
p('C02','Incremental hashing equals one-shot hashing over every call history',
 'A hash object represents exactly the concatenation of the data given to it since it was created or last reset: whatever the split into updates, and whatever digests, hexdigests, copies or empty updates come in between, its digest equals the one-shot digest of that concatenation. A copy represents the same data at the time of copying and then evolves independently, and taking a digest or failing on a bad argument changes nothing.',
 ['histories','inputs'],'every sequence of new/update/digest/hexdigest/copy/reset with every chunk length',
 'The tests use one update per object or block-aligned updates; the state space of buffered length times operation sequences is not sampled.',
 [HASH],[('update buffering, digest on a copy, reset, deepcopy',HASH)],
 [('_buff','bytes not yet compressed',HASH)],['update()','digest()','copy()','reset()'])
p('C03','Kuznyechik and Magma equal GOST R 34.12-2015, and decryption inverts encryption',
 'For every 256-bit key and every block, encrypting a block with Kuznyechik (16 bytes) or Magma (8 bytes) returns exactly the block defined by GOST R 34.12-2015, and decrypting any block returns its unique preimage under that encryption. Repeated use of one cipher object, in any order of encryptions and decryptions, never changes the mapping.',
 ['inputs','histories'],'every key, every block, every order of calls on one object',
 'The tests check one key with four blocks per cipher, which touches a fraction of the substitution and multiplication tables and few carries.',
 [CIPH],[('key schedule, S-boxes, linear transformation, Feistel rounds',CIPH)],
 [('_cipher_iter_key','round keys',CIPH)],['encrypt()','decrypt()'])
p('C04','ECB, CBC, CFB, OFB and CTR produce the output of GOST R 34.13-2015',
 'For both ciphers, every key, every admissible initialization vector (any non-zero number of blocks for CBC, CFB and OFB; half a block for CTR; or the documented default) and every data length, encrypting and decrypting in each mode returns exactly the data GOST R 34.13-2015 defines. In ECB and CBC the plaintext is padded by the selected procedure: zeros up to the block boundary, or a one bit followed by zeros up to the block boundary.',
 ['inputs','configurations'],'cipher x mode x padding x IV length x key x data of any length',
 'The tests use one key, one IV and four-block or one ragged message per mode; longer registers, one-block registers, boundary lengths and other contents are not sampled.',
 [MODE,CIPH],[('mode classes, shift register, padding',MODE)],
 [('_init_vect','shift register',MODE),('_counter','counter block',MODE)],['encrypt()','decrypt()'])
p('C05','Decryption recovers the plaintext in every mode',
 'In every mode, decrypting with a fresh object built from the same cipher, key and initialization vector the output of encrypting any data returns that data: exactly in CFB, OFB and CTR, and followed only by the padding bytes in ECB and CBC. The same holds when the ciphertext is handed over in several pieces of whole blocks.',
 ['inputs','histories','configurations'],'every cipher, mode, key, IV, data length and split into whole-block pieces',
 'The tests round-trip one fixed message per mode.',
 [MODE,CIPH],[('encrypt/decrypt pairs of each mode',MODE)],[('_init_vect','shift register',MODE)],['encrypt()','decrypt()'])
p('C06','Processing data in pieces equals processing it at once; iv and counter track it',
 'On one cipher object, processing data in one direction in successive pieces of whole blocks (the last piece may be ragged) returns the concatenation that a single call on the whole data returns (with padding procedure 2 each encrypted piece is padded by itself), also when empty pieces, reads of properties or operations on other objects come in between. After every call the exposed counter (CTR) equals the initial counter plus the number of gamma blocks consumed, and the exposed iv (CBC, CFB, OFB) is the block last shifted into the register.',
 ['histories','inputs'],'every split into pieces, every number of blocks, both directions',
 'The tests call encrypt once per object, so the state carried between calls is never exercised beyond a fixed example.',
 [MODE],[('register and counter update after each block',MODE)],
 [('_init_vect','shift register',MODE),('_counter','counter block',MODE)],['iv','counter','encrypt()','decrypt()'])
p('C07','Keystream blocks are never reused by one cipher object',
 'In CTR mode the counter block used for a gamma block differs from every counter block used before by that object, however many blocks have been processed and however the calls were split, including after ragged pieces. In OFB and CFB mode a gamma block, or the unused rest of it, is never applied to a second piece of data.',
 ['histories','inputs'],'every number of blocks up to the counter width and every split into calls, ragged ones included',
 'Reuse only shows after the low counter byte wraps (256 blocks) or after a ragged call; the tests process four blocks.',
 [MODE],[('counter increment, register update after an incomplete block',MODE)],
 [('_counter','counter block',MODE),('_init_vect','shift register',MODE)],['encrypt()','counter'])
p('C08','MAC values equal GOST R 34.13-2015 for every message, split and size',
 'For both ciphers, every key, every message (empty, shorter than a block, block-aligned, ragged) and every split of the message into updates, with any digests taken in between, the MAC of size 1 to the block size is the leading bytes of the value GOST R 34.13-2015 defines. Taking a MAC never changes the state, so the object can go on being updated.',
 ['inputs','histories'],'every key, message, split into updates, MAC size',
 'The tests compute the MAC of one four-block message and one ragged message with one key; both subkey derivation branches and short updates are not sampled.',
 [MODE],[('update buffering, subkey derivation, finalisation on a copy',MODE)],
 [('_iter_buf','pending bytes',MODE),('_cur_mac','chaining value',MODE)],['update()','digest()','hexdigest()'])
p('C09','HMAC values equal R 50.1.113-2016 for every key, message and call history',
 'For every key of up to 64 bytes and every message, including the empty one, the HMAC object returns the HMAC over Streebog-256 or Streebog-512 of the concatenation of the data since creation or the last reset, whatever the split and whatever digests or copies come in between. Copies evolve independently, and reset keeps the key.',
 ['inputs','histories'],'every key length 0..64, message, split, and sequence of update/digest/copy/reset',
 'The tests use one 32-byte key and one message; other key lengths, empty messages, copies and resets in mid-stream are not sampled.',
 [HMAC,HASH],[('inner and outer padded key hashing',HMAC)],[('_hasher_obj','inner hash',HMAC),('_key','padded key',HMAC)],
 ['update()','digest()','copy()','reset()'])
p('C10','Derived keys equal PBKDF2 of R 50.1.111-2016',
 'For every password of up to 64 bytes, salt, iteration count and output length, the derived key is the PBKDF2 output over HMAC-Streebog-512 that R 50.1.111-2016 defines, truncated to the requested length. Deriving again from the same object, with any sequence of lengths, gives the same key material, so that shorter outputs are prefixes of longer ones.',
 ['inputs','histories'],'every password, salt, iteration count, output length (also beyond 255 blocks) and order of derive calls',
 'The tests check four fixed vectors; multi-block outputs past the first counter byte and repeated derivation are not sampled.',
 [PBK,HMAC],[('block function, block counter, truncation',PBK)],[('_hmac_obj','keyed HMAC',PBK)],['derive()','hexderive()','salt'])
p('C11','The pseudo-random generator follows R 1323565.1.006-2017 and never repeats state',
 'For every seed, seed size, output size and sequence of calls, each output is the concatenation of Streebog-512 digests of the seed with a counter that increases by one for every digest and never repeats until the generator is reseeded; a partial last block is the trailing bytes of its digest. When the counter space is exhausted, or the seed is all zero or was cleared, the generator raises its error instead of returning output, and reset starts the sequence of the new seed.',
 ['inputs','histories'],'every seed, seed size, output size, number of calls, and reset/clear in between',
 'The tests draw two values from one seed; counter carry, exhaustion, mixed sizes, and behaviour after clear are only forced by patching internals.',
 [RND,HASH],[('counter increment, limit check, output assembly',RND)],[('_rand_u','seed and counter',RND)],['random()','reset()','clear()'])
p('C12','Generated signatures are exactly those of GOST R 34.10-2012 and always verify',
 'For every supported curve, private key, digest and given random number k, the signature is (r, s) of GOST R 34.10-2012 in fixed-width big-endian form, and without a given k it is that value for some k between 1 and q-1; both components lie between 1 and q-1. Verifying it with the public key of that private key and the same digest returns True.',
 ['inputs','configurations'],'every built-in curve, private key, digest (also 0 and >= q) and random number',
 'The tests check a fixed triple for each test curve; leading zeros, special digests and keys, the doubling path of verification and most built-in curves are not sampled.',
 [SIG],[('sign, verify, point multiplication and addition',SIG)],[],['sign()','verify()','public_key_generate()'])
p('C13','Verification is True exactly when the GOST R 34.10-2012 equation holds',
 'For every byte string of the right size given as signature, digest and public key, verification returns True if and only if the public key is a point of the curve, both signature components lie between 1 and q-1, and the GOST R 34.10-2012 verification equation holds. In particular it returns no True for modified signatures, digests or keys, for component values that are zero or not below q, for sums at the point at infinity, or for keys that are not curve points.',
 ['inputs'],'every signature, digest and public key, including ones made by an adversary who knows the private key',
 'The tests reject one modified signature; the exceptional cases of point addition, range checks at the boundary values and degenerate keys have to be constructed.',
 [SIG,UT],[('range check, point addition, comparison',SIG)],[],['verify()'])
p('C14','Public keys are the private key times the base point',
 'For every supported curve and private key that is not zero modulo q, the generated public key is the fixed-width big-endian encoding of both coordinates of the private key times the base point, and is therefore a point of the curve. A private key that is zero modulo q is refused by key generation and by signing.',
 ['inputs','configurations'],'every built-in curve and private key, including small, large and leading-zero values',
 'The tests derive one public key per test curve.',
 [SIG],[('double-and-add multiplication',SIG)],[],['public_key_generate()'])
p('C15','Only curves that pass the domain parameter checks are accepted; both forms agree',
 'A signature object is created only if the base point satisfies the curve equation, the group order m differs from p, q lies between 2^254 and 2^256 (or 2^508 and 2^512) for the chosen mode, and p^t is not 1 modulo q for t up to 31 (or 131); otherwise the documented error is raised. Curve parameters given only in twisted Edwards form behave exactly like the equivalent Weierstrass parameters, and the built-in parameter sets have the standardised values.',
 ['configurations','inputs'],'every combination of curve parameters and mode',
 'The tests try four broken parameter sets; conditions that hold for almost every curve (such as the embedding degree bound) are never false in a test.',
 [SIG],[('parameter checks and form conversion in the constructor',SIG)],[],['new()'])
p('C16','Invalid arguments raise the documented error and nothing else',
 'For every public function and method, an argument of the wrong type, size or value for which an error is documented makes the call raise the exception class of that module with the documented message, and never another exception, a hang or a silent result. A refused update leaves hash and HMAC objects usable and unchanged.',
 ['inputs','histories'],'every entry point x every kind of invalid argument (type, length next to the limits, out-of-range value), in any object state',
 'The tests try one bad value per argument, mostly a string; empty values, off-by-one lengths and out-of-range numbers are not sampled.',
 [HASH,MODE,HMAC,PBK,RND,SIG,OID,UT],[('argument checks at each entry point',UT)],[],['every public function'])
p('C17','Objects are independent, and caller buffers are neither modified nor retained',
 'The result of any call on one object depends only on the arguments and calls made on that object (and on what it was copied from), not on operations on other objects in between, whether these are made by the same thread or by other threads, or on other objects being dropped. No call modifies a buffer passed to it, changing such a buffer after the call (or a value the library returned) changes no later result, and bytes and bytearray arguments give the same results.',
 ['histories','inputs'],'every interleaving of calls on several objects of all kinds with mutations of all passed and returned buffers',
 'The tests use one object at a time and never touch a buffer after passing it.',
 [HASH,MODE,CIPH,HMAC,PBK,RND,SIG],[('copies made of keys, IVs, seeds, data and returned state',MODE)],[],['every public function'])
p('C18','After clear() no result depends on the secret any more',
 'After clear() on a cipher, MAC, HMAC, key derivation or pseudo-random generator object, no later call on it returns a value that depends on the key, password or seed it was created with: two objects that differ only in that secret, and have returned the same results before, behave identically after clear(). Clearing an object is repeatable, raises no error and affects no other object, not even copies or objects created from the same key buffer.',
 ['histories','inputs'],'every object kind, secret, state before clear and call sequence after it',
 'No test calls clear() at all.',
 [MODE,CIPH,HMAC,PBK,RND,UT],[('clear methods and zero filling',UT)],[],['clear()'])
p('C19','Object identifiers are encoded in DER and named correctly',
 'For every object identifier with valid components of any size, the octet form is its DER encoding, the digit form is the tuple of its components, the text form is the given string, and the name is the TC 26 name of that identifier or empty. Text that is not a valid object identifier raises the documented error for the digit or octet form.',
 ['inputs'],'every dotted identifier: any number of components, any component size, every top-level arc',
 'The tests encode a few identifiers with one- or two-octet components; longer components and long encodings are not sampled.',
 [OID],[('base-128 and length encoding, registry',OID)],[],['octet','digit','name','str()'])
p('C20','Nonces, salts and seeds generated by default are fresh and unbiased',
 'A signature made without a given random number uses a nonce that is uniform between 1 and q-1 and independent for every signature, a key derivation object made without a salt gets 32 fresh random bytes, and a generator made or reset without a seed gets a fresh full-size random seed. No two of them ever coincide, whatever was generated before, and values the system source delivers outside the valid range are drawn again.',
 ['histories','inputs','fault_sequences'],'every sequence of signings, derivations and reseedings, and every sequence of values delivered by the system random source',
 'The tests replace the random source by a constant.',
 [SIG,PBK,RND],[('os.urandom calls and rejection loop',SIG)],[],['sign()','salt','random()'])
p('C21','Published attributes and hexadecimal forms agree with the results',
 'For every object, the digest size, block size, key size, name and object identifier it publishes are those of the algorithm it was created for and stay constant over its life, and every result has the published size. Every hexadecimal form (hexdigest, hexderive) is the lowercase hexadecimal text of the corresponding binary result at that point of the call history.',
 ['histories','configurations'],'every object kind and algorithm, at every point of every call history',
 'The tests read each attribute once on a new object, and compare hexadecimal results for one value.',
 [HASH,HMAC,MODE,CIPH,PBK,SIG],[('attributes and hex methods',HASH)],[],['digest_size','block_size','key_size','name','oid','hexdigest()','hexderive()'])
p('C22','A refused call leaves every object as if it had not been made',
 'A call or constructor that raises an error because of its arguments changes nothing but that: afterwards every object, the one it was made on included, gives for every further sequence of calls exactly the results it would have given without the refused call, and no buffer passed to the refused call is modified. This holds for hash, HMAC, MAC, key derivation, generator, signature and identifier objects in any state. Cipher and MAC objects that refuse data of a wrong type may instead clear themselves, and then behave exactly as after clear().',
 ['histories','inputs'],'every object kind, every history, every kind of invalid argument at every point of the history, any number of refused calls',
 'The tests assert that an error is raised and then drop the object; what a partly performed call leaves behind only shows in later results.',
 [HASH,MODE,HMAC,PBK,RND,SIG,OID],[('order of argument checks and state changes at each entry point',MODE)],[],['every public function'])
p('C23','Byte-string helpers compute the numbers and comparisons they stand for',
 'In gostcrypto.utils, for byte strings (bytes or bytearray) of every length: bytearray_to_int is the big-endian value and int_to_bytearray its inverse on any number of bytes the value fits in; add_xor is the bytewise exclusive or of the common length; compare is True exactly for equal strings of equal length and compare_to_zero exactly for strings of zeros; msb is nonzero exactly if the highest bit of the first byte is set; zero_fill is as many zeros as the string is long; check_value is True exactly for byte strings of the given length. Arguments are not modified by the others than zero_fill.',
 ['inputs'],'every pair of byte strings of every length, in particular ones whose differences cancel or add up to powers of two',
 'The tests never call the helpers directly, and the values the tests use do not reach zero lengths, long strings or cancelling differences.',
 [UT],[('constant-time comparison, conversion of numbers',UT)],[],['bytearray_to_int()','int_to_bytearray()','add_xor()','compare()','compare_to_zero()','check_value()'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
