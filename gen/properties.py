#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Text of the properties lives here; what each check runs lives in props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from props import PROPS
L = []
def p(id, title, statement, over, text, why, files, mech, level='other', technique='', note=''):
    assert len(title) <= 80, title
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _t=technique, _n=note, _l=level))
VGT = 'abstract interpretation over LLVM IR with a value-graph (congruence) domain, joins at postdominators'
VGN = ('Sound for every content of the symbolic bytes at the lengths and call shapes listed in the evidence; lengths, key lengths and call sequences are a partition chosen around block sizes and every constant the current code compares with, not all of them. '
       'Equality is by identical value-graph terms; a pair left over is compared by random interpretation (error probability below 2^-64 per pair) and counted separately. Trusts clang -O0 IR, the interpreter, its C library models and the reference programs in spec/.')
HASH = ['src/hashes/', 'include/libpgfe/hashes/', 'src/core/generic-internal.h']
p('C01', 'Every public operation stays inside valid, initialised memory',
  'For every argument allowed by the interface, no operation of the library reads or writes outside the caller-supplied or library-owned buffers, reads indeterminate memory, uses released memory, releases twice, or divides by zero; every call returns. Results never contain indeterminate bytes. Nothing depends on an order of evaluation the language leaves open. Output buffers sized as documented are always large enough.',
  ['inputs', 'histories'], 'Every public C function and C++ member, every content of messages, keys, texts and encoded strings, every length and order of calls in the partition.',
  'The tests use a few dozen fixed strings with generously sized buffers; a one-byte overrun, a missing bound for one length class or a read of an indeterminate byte changes none of their results.',
  ['src/', 'include/libpgfe/'], [('buffer arithmetic of update/digest', 'src/hashes/md5-backend.c, sha-internal.c, keccak-backend.c'), ('output sizes of codecs', 'src/base_encoding/base-encoding-internal.c'), ('object buffers', 'src/base_encoding/abstract_base_encoding.cpp, src/fishes/blowfish.cpp')],
  technique=VGT + '; every access is an obligation (bounds, liveness, definedness)', note=VGN)
p('C02', 'A message may be fed in any pieces',
  'Feeding a message to a hash or keyed-hash context in any division into update calls, including empty ones, gives the digest of the whole message fed at once. The pieces need not outlive the call that passed them.',
  ['inputs', 'histories'], 'All 16 hash functions and 12 keyed ones; for each amount already buffered and each relation of the next piece to the block size; all contents.',
  'Tests feed messages in one call or a couple of fixed pieces; the buffering code has separate branches for partial fill, exact fill and overshoot.',
  HASH + ['src/hmac/hmac.c'], [('partial block buffering', 'src/hashes/md5-backend.c, sha-internal.c, templates.h, keccak-backend.c')], technique=VGT, note=VGN)
p('C03', 'Every digest is the one the standard defines',
  'For every message, MD5, SHA-1, SHA-2, SHA-3, SHAKE and RawSHAKE digests equal those defined by RFC 1321, FIPS 180-4 and FIPS 202, up to the longest messages the standards allow.',
  ['inputs'], 'All contents at each message length of the partition (padding boundaries, block multiples, thresholds in the code) and message lengths next to 2^28..2^61 bytes through the length counter.',
  'Known-answer tests sample a handful of short strings; padding for each length class and counters beyond a few blocks are not exercised.',
  HASH, [('compression and padding', 'src/hashes/*-backend.c, sha-internal.c'), ('length counters', 'src/hashes/sha-internal.h')], technique=VGT + ' against reference programs written from the standards', note=VGN)
p('C04', 'Initialising a context or object erases everything before it',
  'After initialisation, re-initialisation or setting a key, a context behaves as a fresh one whatever it contained before: arbitrary memory, a half-fed message, a finished digest, another key.',
  ['histories', 'inputs'], 'All contexts, previous contents arbitrary or any of the listed uses, all message contents.',
  'Tests reuse contexts only after complete short digests.', HASH + ['src/hmac/'], [('init functions', 'src/hashes/*.c, src/hmac/hmac.c'), ('reset', 'src/hashes/hash_encoder.cpp, src/hmac/hmac_encoder.cpp')], technique=VGT, note=VGN)
p('C05', 'Keyed digests are RFC 2104 HMAC for every key length',
  'For every key and message, the keyed digest of every supported hash equals HMAC as defined in RFC 2104, with keys longer than a block hashed first and no key treated as the empty key; the one-shot, generic and incremental forms agree.',
  ['inputs'], 'All key and message contents; key lengths around 0, digest size, block size, twice the block size.',
  'Tests use short text keys only.', ['src/hmac/', 'include/libpgfe/hmac/'], [('key block', 'src/hmac/hmac.c')], technique=VGT + ' against RFC 2104 over the reference hashes', note=VGN)
p('C06', 'HOTP passwords are RFC 4226 for every counter, secret and digit count',
  'For every secret and 64-bit counter the password equals dynamic truncation of the keyed digest reduced to the requested digits, for every supported hash. Its decimal form is zero-padded to the digit count; a secret given in Base32 means the bytes it encodes; asking an object without a secret raises the documented exception.',
  ['inputs', 'histories'], 'All counters and secret contents; secret lengths around block sizes; digit counts 0..11; every constructor and setter.',
  'Tests check a few RFC vectors; truncation offsets, counters with high bytes and leading zeros are rarely hit.',
  ['src/otp/', 'include/libpgfe/otp/'], [('dynamic truncation', 'src/otp/otp-generic.c, src/otp/hotp.c'), ('objects', 'src/otp/hotp.cpp, abstract_otp.cpp')], technique=VGT + ' against RFC 4226 over the reference HMAC', note=VGN)
p('C07', 'TOTP passwords use the counter of the current time window',
  'At any time not before the start, the time-based password is the counter-based password for the number of whole intervals since the start, recomputed on every request, and the reported remaining seconds are those left in that window.',
  ['inputs', 'histories'], 'Arbitrary offsets, also beyond 2^32 seconds, several starts and intervals from 1 to 2^32-1, arbitrary secrets; successive requests with the clock moving both ways.',
  'Tests can only compare against the wall clock at the moment they run.',
  ['src/otp/totp.c', 'src/otp/totp-internal.c', 'src/otp/totp.cpp'], [('window counter', 'src/otp/totp-internal.c'), ('per-request refresh', 'src/otp/totp.cpp')], technique=VGT + ', with the clock as an unconstrained value', note=VGN)
p('C08', 'Base16/32/64 encoding is RFC 4648 for every length and content',
  'For every byte sequence the encoded text, its length, padding and terminator are those of RFC 4648 for Base16, Base32, Base32hex, Base64 and URL-safe Base64, and nothing is written beyond the terminator.',
  ['inputs'], 'All byte contents for each length in the partition, covering every position within a group.',
  'Tests encode fixed short strings.', ['src/base_encoding/', 'include/libpgfe/base_encoding/'], [('grouping and padding', 'src/base_encoding/base-encoding-internal.c')], technique=VGT, note=VGN)
p('C09', 'Base16/32/64 decoding recovers exactly the encoded bytes',
  'Decoding any text made of alphabet characters of an encoding, padded or not, yields exactly the bytes it encodes, zero bytes included; letter case does not matter for Base16 and Base32; both Base64 alphabets are accepted and characters outside the alphabet are skipped.',
  ['inputs'], 'Every choice of characters at each position for each length in the partition; a foreign character at each position.',
  'Tests decode a few fixed strings without zero bytes.', ['src/base_encoding/', 'include/libpgfe/base_encoding/'], [('character tables and regrouping', 'src/base_encoding/base-encoding-internal.c')], technique=VGT + '; characters as finite tables', note=VGN)
p('C10', 'Hexadecimal conversion is faithful in both directions',
  'Converting bytes to hexadecimal gives two lower-case digits per byte; converting back accepts both cases, an optional 0x prefix and interspersed foreign characters, takes an odd number of digits as if a zero preceded them, and never depends on anything but the string.',
  ['inputs'], 'All byte contents; all digit characters; digit counts of both parities; foreign characters at each position.',
  'Tests convert complete digests only.', ['src/core/utils.c', 'src/core/generic.c', 'include/libpgfe/utils.h'], [('conversions', 'src/core/utils.c')], technique=VGT, note=VGN)
p('C11', 'Blowfish encrypts and decrypts as specified, and inverts itself',
  'Under any key schedule encryption equals the published cipher, decryption inverts it in both orders, messages are processed block by block in big-endian halves with the last block zero-padded, and the key schedule is the published one for keys of any length.',
  ['inputs'], 'Arbitrary schedules, blocks and message contents; message lengths covering every residue; key lengths 0..73.',
  'Tests use one or two keys and short texts.', ['src/fishes/', 'include/libpgfe/fishes/'], [('rounds and key schedule', 'src/fishes/blowfish.c'), ('object', 'src/fishes/blowfish.cpp')], technique=VGT, note=VGN + ' The key schedule is analysed for fixed key bytes at each length and for an arbitrary 4-byte key.')
p('C12', 'Objects compute what the functions compute, through every argument form',
  'Hash, keyed-hash and base-codec objects give the results of the corresponding functions for every argument form (pointer and length, text, string, data), also after reset, after longer or shorter previous inputs, through base-class references, and for every requested output length.',
  ['inputs', 'histories'], 'All algorithms and codecs, every overload, all contents; sequences of growing and shrinking inputs on one object.',
  'Tests call a few overloads once each with one string.', ['src/hashes/hash_encoder.cpp', 'src/hmac/hmac_encoder.cpp', 'src/base_encoding/*.cpp'], [('dispatch by algorithm', 'src/hashes/hash_encoder.cpp, src/core/generic-internal.h'), ('cached buffers', 'src/base_encoding/abstract_base_encoding.cpp')], technique=VGT, note=VGN)
p('C13', 'One-call, text, stream and several-piece forms agree with the incremental form',
  'For every hash function the one-call, text, stream and several-piece forms give the digest of the same bytes through init, update and digest; a stream is read from its current position to its end or to the first failure of a read, and absent pieces are skipped.',
  ['inputs'], 'All 16 functions, all contents, lengths around blocks and around the read buffer, short reads excluded.',
  'Tests use one file and one string per form.', ['src/hashes/templates.h', 'src/hashes/', 'include/libpgfe/hashes/'], [('form templates', 'src/hashes/templates.h')], technique=VGT, note=VGN)
p('C14', 'Control flow and addresses never depend on message or key contents in hashing',
  'The sequence of instructions executed and the memory addresses accessed by hashing and keyed hashing depend only on lengths, never on the contents of messages or keys.',
  ['inputs'], 'All contents of messages and keys, every hash and keyed-hash operation.',
  'Timing and memory-trace independence is invisible to result-comparing tests.', HASH + ['src/hmac/'], [('arithmetic-only round functions', 'src/hashes/*-backend.c, sha-internal.c')], technique='value-graph taint: every branch condition, address and length met while interpreting the hash code must be free of message and key atoms', note='Covers every branch and address of the code reached in the listed cases, for all contents. Decided on unoptimised IR: a compiler could still introduce branches.')
p('C15', 'Inputs are never modified and never retained',
  'No operation writes to memory passed as input, and no context, object or result refers to caller-owned memory after the call returns.',
  ['inputs', 'histories'], 'Every public operation taking pointers, strings or data objects; all contents.',
  'Tests rarely compare inputs afterwards and keep them alive throughout.', ['src/', 'include/libpgfe/'], [('const inputs', 'include/libpgfe/')], technique=VGT + '; inputs are read-only objects destroyed after the call', note=VGN)
p('C16', 'The library keeps no hidden state between calls',
  'Results depend only on the arguments, the context or object passed and, for time-based passwords, the clock: no operation writes memory shared between independent contexts or objects.',
  ['schedules', 'histories'], 'All functions of the library; every interleaving of calls on distinct contexts or objects.',
  'Sequential tests on single objects cannot see interference.', ['src/', 'include/libpgfe/'], [('no mutable globals', 'src/')], technique='effect analysis over LLVM IR: stores whose address may derive from a global or static object, calls to non-reentrant C library functions')
p('C17', 'One codec object may be used by several threads at once',
  'Concurrent encode and decode calls on one base-codec object never access its shared mutable state without a common lock, and every lock is released on every exit, exceptional ones included.',
  ['schedules', 'fault_sequences'], 'All interleavings of encode and decode on one object; allocation failure at any point.',
  'Tests are single-threaded and never fail an allocation.', ['src/base_encoding/abstract_base_encoding.cpp', 'include/libpgfe/base_encoding/abstract_base_encoding.hpp'], [('enc_mutex, dec_mutex', 'src/base_encoding/abstract_base_encoding.cpp')], technique='lockset analysis (per byte of shared state) on the abstract memory, over all operation pairs and allocation-failure points', note='')
p('C18', 'Everything allocated is released exactly once, also when allocation fails',
  'Every operation releases the memory it allocates and does not return; objects release everything on destruction; when an allocation fails the operation raises the failure without leaking, double release or corrupting the object.',
  ['histories', 'fault_sequences'], 'Every object and function that allocates; each allocation of the sequence failing in turn.',
  'Leaks and failed allocations are invisible to the tests.', ['src/hashes/hash_encoder.cpp', 'src/otp/', 'src/base_encoding/', 'src/core/'], [('ownership by unique_ptr', 'include/libpgfe/'), ('destroy_context', 'src/hashes/hash_encoder.cpp')], technique='typestate of heap objects in the abstract memory, each allocation point failing in turn', note='')
p('C19', 'Lengths and counters are never silently narrowed',
  'No byte or bit count supplied by the caller or derived from one is reduced to a narrower integer on its way to a loop bound, copy length, size or digest.',
  ['inputs'], 'All call paths carrying lengths, for lengths up to the full range of size_t.',
  'Only inputs of gigabytes would show it at run time.', ['src/', 'include/libpgfe/'], [('length parameters', 'src/')], technique='interprocedural dataflow over LLVM IR from length parameters to truncations', note='')
p('C20', 'The public headers stand alone and everything declared is defined',
  'Each public header compiles on its own as its language, in any order and repeatedly, and every function declared in a public header is defined by the library with that signature.',
  ['programs'], 'Every public header and declaration.', 'Tests include the few headers they use, after others.', ['include/libpgfe/', 'src/'], [('declarations', 'include/libpgfe/')], technique='compilation witnesses per header and symbol resolution of every declaration against the IR', note='')
p('C21', 'Stack use is bounded independently of the input',
  'No operation recurses and no stack object grows with a caller-supplied length.',
  ['inputs'], 'All functions and call chains of the library.', 'Only huge inputs show it.', ['src/'], [('fixed-size locals', 'src/')], technique='call-graph cycle detection and constant-size check of every stack allocation in the IR', note='')
p('C22', 'Sequential data holds exactly the bytes given',
  'A data object built from bytes, text, a string, hexadecimal digits or another object holds exactly those bytes; conversions out of it give them back, and writing it to a stream writes them; trimming removes exactly the zero bytes at the chosen ends and nothing else.',
  ['inputs'], 'All contents; lengths around the small-string limit; every zero pattern of short data.', 'Tests use one text.', ['src/core/sequential_data.cpp', 'src/core/utils.cpp'], [('SequentialData', 'src/core/sequential_data.cpp')], technique=VGT, note=VGN)
p('C23', 'Algorithm names and sizes denote the right algorithms',
  'Every documented algorithm name selects its algorithm, unknown names are refused, and the block and digest sizes reported for each algorithm are those of the standard.',
  ['inputs'], 'All documented names and algorithms; a list of near-miss names.', 'Tests use a few names.', ['src/core/generic.cpp', 'include/libpgfe/generic.hpp', 'include/libpgfe/algorithm-choice.h'], [('name and size tables', 'include/libpgfe/generic.hpp')], technique=VGT, note='Finite: every name and algorithm is analysed. Unknown names are sampled.')
p('C24', 'Extendable output is one stream, whatever the requested lengths',
  'For SHAKE and RawSHAKE, output of any number of bits is the prefix of that length of the same stream, and successive whole-byte requests continue it.',
  ['inputs', 'histories'], 'Every output length up to three blocks in bits (thorough) and selected ones (quick); three successive requests of many sizes.', 'Tests ask for the default lengths.', ['src/hashes/shake.c', 'src/hashes/keccak-backend.c'], [('squeeze', 'src/hashes/keccak-backend.c')], technique=VGT, note=VGN)
p('C25', 'Results may be fed back as inputs',
  'A digest or keyed digest may be written over the buffer that holds the message or the key (completely, at its end, or partly beyond it), and Blowfish may encrypt and decrypt in place: the result is the one separate buffers give and no other byte changes. What a hash or keyed-hash object returned stays as it is over resets and updates until the next digest is asked for, so it can be the next message of the same object or the key of another; encodings and ciphertexts can replace the data they were made from, any number of times.',
  ['inputs', 'histories'], 'Arbitrary contents; message and key lengths around digest and block sizes; three places of the result; four rounds.', 'Tests use separate buffers.', ['src/hashes/templates.h', 'src/hmac/hmac.c', 'src/fishes/blowfish.c', 'src/hashes/hash_encoder.cpp', 'src/hmac/hmac_encoder.cpp'], [('whole blocks are read before they are written', 'src/fishes/blowfish.c'), ('digest kept by the object', 'src/hashes/hash_encoder.cpp')], technique=VGT, note=VGN)
p('C26', 'Contexts are values: they may be copied and moved',
  'A hash, keyed-hash or cipher context is plain data: copied byte by byte (assignment, memcpy) to other memory at any time between two operations, with the original then released, reused or overwritten, the copy finishes with the result the original would have given; original and copy may both go on with different data without disturbing each other, and a saved copy may be put back to resume from that point. Objects that can be copied or moved (Blowfish, HMACEncoder) keep key, algorithm and the data fed so far.',
  ['histories', 'inputs'], 'Arbitrary contents of message, key and pending block; several fill levels per algorithm; original overwritten or fed otherwise after the copy.', 'Tests use every context where it was made.', ['src/hashes/*.c', 'include/libpgfe/hashes', 'src/hmac/hmac.c', 'include/libpgfe/fishes/blowfish.hpp', 'include/libpgfe/hmac/hmac_encoder.hpp'], [('contexts hold their buffers by value', 'include/libpgfe/hashes'), ('no state is kept beside the context', 'src/hmac/hmac.c')], technique=VGT, note=VGN)
p('C27', 'The library only computes: no effects on the process or the system',
  'Apart from the memory and streams it is given, the library changes nothing: no function ends the process (exit, abort, terminate, signals), writes to the terminal, the standard streams or a descriptor (the printing function excepted), opens, closes or removes files or closes the stream it was given, starts processes or threads, or changes locale, environment, signal handling, random generators or other state of the process. Every error, a failing allocation and any malformed text included, ends in a returned value or an exception the caller can catch.',
  ['configurations', 'fault_sequences', 'inputs'], 'The whole library for the effects; all cases of the named specification programs for the traps.', 'Tests do not look at what else happens, and meet few of the error paths.', ['src/*', 'include/libpgfe/*', 'src/core/utils.c'], [('only the printing function prints', 'src/core/utils.c'), ('errors are thrown or returned', 'src/otp/hotp.cpp')], technique='interprocedural effect analysis over LLVM IR; abstract interpretation (value graph) for traps', note='Effects are recognised by the names of the functions of the C, POSIX and C++ libraries listed in tool/rules.cpp.')
p('C28', 'What is declared const only reads',
  'An operation declared const - a const member function of data, encoders, passwords, codecs, a C function taking a const context, any operation as far as its const arguments are concerned - writes to no memory that existed before the call, unless under a lock common to all accesses or atomically. So one object, key schedule or argument may be read by several threads at once, and asking again gives the same answer.',
  ['schedules', 'histories'], 'Every const operation of every public class against itself and every other; arbitrary contents and counters.',
  'Tests are single-threaded; a cache filled inside a const operation gives right results in every sequential test.', ['src/core/sequential_data.cpp', 'src/otp/*.cpp', 'src/fishes/blowfish.c', 'include/libpgfe/*.hpp'], [('const conversions of data', 'src/core/sequential_data.cpp'), ('generate() const', 'src/otp/hotp.cpp'), ('const key schedule', 'src/fishes/blowfish.c')], technique='lockset analysis (per byte of memory older than the operation) on the abstract memory, over all pairs of const operations; results compared with the reference', note='')
with open(V + '/properties.jsonl', 'w') as f:
    for x in L: f.write(json.dumps({k: v for k, v in x.items() if not k.startswith('_')}) + '\n')
M = dict(version=1, setup_cmd='python3 run.py setup', checks=[], not_applicable=[], notes='Static analysis only: /repo is compiled to LLVM IR and analysed; nothing of it is executed. See DESIGN.md. known_findings.txt lists repaired defects.')
for x in L:
    i = x['id']
    if i in PROPS:
        assert i in PROPS
        M['checks'].append(dict(property=i, quick_cmd=f'python3 run.py check {i}', thorough_cmd=f'python3 run.py check {i} --thorough', evidence_file=f'evidence/{i}.json', technique=x['_t'], level=x['_l'], level_note=x['_n'] or PROPS[i].get('note', 'See DESIGN.md.')))
    else: M['not_applicable'].append(dict(property=i, reason='the rule that decides it is not built yet'))
with open(V + '/MANIFEST.json', 'w') as f: json.dump(M, f, indent=1); f.write('\n')
