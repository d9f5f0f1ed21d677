import json
P=[]
def p(id,title,st,over,q,why,files,mech,sym=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=dict(files=["CEX/"+f for f in files.split()],mechanism=[dict(name=mech,where=", ".join(files.split()[:4]))])))
p("C01","Cipher modes compute the textbook mode however the data is chunked",
"For ECB, CBC, CFB, OFB, CTR and ICM over every block cipher, the bytes produced by any sequence of transform and block calls, at any buffer offsets, are exactly those the mode's definition gives for the concatenated data, and the chaining state carries over between calls. Decryption undoes encryption whatever chunking either side used, nothing outside the requested output window is written, and re-initialising a used instance leaves no trace of its past.",
["histories","inputs","configurations"],"all call sequences up to a depth over lengths around every SIMD, parallel and register boundary; every mode, direction, cipher, register size, offset pair, counter pattern, sequential and parallel profile",
"tests run NIST vectors and whole-buffer comparisons at the default parallel size; they never chain calls of mixed length or offset, nor wrap a counter inside a wide lane group",
"CBC.cpp CFB.cpp CTR.cpp ECB.cpp ICM.cpp OFB.cpp ICipherMode.h CipherModeFromName.cpp","Initialize/Transform/EncryptBlock/DecryptBlock, Process and the Generate/Segment helpers")
p("C02","Parallel processing gives the sequential result under every schedule",
"Multi-threaded processing in the cipher modes, the stream ciphers, the tree-hashing digests and the generators yields the same output and the same continuing state as sequential processing, whatever order and interleaving the worker threads take and whatever degree and block size the parallel profile is given. No two workers of one call touch the same byte unless both only read it.",
["schedules","configurations","inputs"],"all interleavings of the worker threads at synchronisation points and conflicting accesses up to a preemption bound, for each parallel algorithm, degree 2 and 4 and lengths around the parallel block size",
"tests run each parallel path a few times under whatever schedule the OS happens to choose, with the host's single degree",
"ParallelTools.cpp ParallelTools.h ParallelOptions.cpp CTR.cpp ICM.cpp CBC.cpp CFB.cpp ECB.cpp RCS.cpp RWS.cpp ChaChaP20.cpp CSX512.cpp TSX256.cpp TSX512.cpp TSX1024.cpp Blake256.cpp Blake512.cpp SHA3256.cpp SHA2256.cpp SHA2512.cpp Skein256.cpp Skein512.cpp Skein1024.cpp BCG.cpp","ParallelTools::ParallelFor task fan-out and the per-worker segment/counter arithmetic of each algorithm")
p("C03","Authenticated ciphers accept exactly what was sealed",
"Every authenticated mode and authenticated stream cipher decrypts its own output, under the same key, nonce and associated data, to the original message and accepts its tag. Changing any part of the ciphertext, the tag, the associated data, the nonce or the key, truncating, extending or reordering it makes verification fail, and ciphertext and tag do not depend on buffer offsets, the overload used, the parallel settings or what the instance processed before. A rejected message leaves the output untouched.",
["inputs","histories","fault_sequences"],"every single-bit flip, truncation and boundary shift of ciphertext, tag and associated data for messages around the block boundaries, in every AEAD mode and authenticated stream cipher, and every order of the messages of one stream",
"tests verify known answers and a few random round trips; rejection is tried on a single altered tag",
"GCM.cpp HBA.cpp AeadModeFromName.cpp IAeadMode.h RCS.cpp RWS.cpp ChaChaP20.cpp CSX512.cpp TSX256.cpp TSX512.cpp TSX1024.cpp GMAC.cpp GHASH.cpp StreamCipherFromName.cpp","Finalize/Verify/SetAssociatedData and the MAC update order")
p("C04","Authenticated ciphers and stream ciphers obey their protocol in every history",
"For every order of initialise, set-associated-data, transform, finalise, verify and tag calls, an authenticated mode or stream cipher either performs the step with the result a fresh instance driven through the same legal history gives, or refuses with the library's exception and leaves later results unaffected; after a failed verification it has to be re-initialised before further use. Re-initialising always restores a clean state, and successive messages of one initialisation never reuse a keystream.",
["histories","configurations"],"all operation sequences up to a depth on one instance, replayed against a step-by-step model of the protocol built from fresh instances",
"tests drive each cipher through one straight-line sequence only",
"GCM.cpp HBA.cpp RCS.cpp RWS.cpp ChaChaP20.cpp CSX512.cpp TSX256.cpp TSX512.cpp TSX1024.cpp ChaCha.h IStreamCipher.h","the Initialized/Finalized/Authenticated flags and nonce handling of each class")
p("C05","Digests and MACs depend only on the concatenated message",
"Every digest and MAC gives the same code for a message however it is split into update calls of any length and buffer offset, including scalar updates and pieces around the block, rate, lane and parallel boundaries, and equals the one-shot computation; every byte of the message affects the code. Finalize or Reset returns a digest to the state of a fresh one, a MAC's code depends only on its key and the data given since it was last initialised, a tree digest does not depend on the processor count or parallel profile, and standard functions equal their published definitions at every length.",
["inputs","histories","configurations"],"all split points of messages around each block and lane boundary, all operation sequences (update, byte update, finalize, reset, re-key) up to a depth, sequential and parallel tree parameters; standard algorithms against an independent implementation at every length of several blocks",
"tests use fixed vectors plus one compute/update comparison at a random length",
"SHA2256.cpp SHA2512.cpp SHA3256.cpp SHA3512.cpp Keccak.cpp Blake256.cpp Blake512.cpp Skein256.cpp Skein512.cpp Skein1024.cpp CMAC.cpp GMAC.cpp HMAC.cpp KMAC.cpp Poly1305.cpp DigestFromName.cpp MacFromName.cpp SHA2.cpp Blake.cpp","message buffer and length counters in Update/Finalize, state reset")
p("C06","Deterministic generators and XOFs are functions of seed and request history",
"A deterministic generator or extendable-output function initialised with equal seed material produces equal output, a different seed, nonce or info gives a different stream, and consecutive requests continue one stream without repeating or skipping bytes wherever the algorithm defines a continuous stream. Requests are accepted before initialisation, beyond limits or with bad sizes only by refusing with the library's exception, never with predictable output.",
["histories","inputs","configurations"],"all sequences of initialise, generate (several lengths and container types) and update up to a depth for each generator, with and without prediction resistance, against a model built from the published construction or from a fresh instance",
"tests compare fixed vectors and statistical properties of one stream",
"BCG.cpp CSG.cpp HCG.cpp SHAKE.cpp DrbgFromName.cpp PrngFromName.cpp BCR.cpp CSR.cpp HCR.cpp IDrbg.h IPrng.h","internal buffer index, counters and reseed logic")
p("C07","Key derivation equals its published definition at every length",
"HKDF, KDF2, PBKDF2, SCRYPT and SHAKE derive, for equal key, salt and info, equal output equal to their published definition at every output length, and output written through any overload, offset or container type is the same. A changed key, salt, info, iteration count or cost changes the output, and consecutive generate calls follow one documented stream.",
["inputs","histories","configurations"],"all key/salt/info length combinations around the hash block boundaries, all output lengths around the block boundaries, all generate sequences up to a depth, compared with an independent implementation",
"tests check RFC vectors of a few fixed lengths",
"HKDF.cpp KDF2.cpp PBKDF2.cpp SCBKDF.cpp SHAKE.cpp KdfFromName.cpp IKdf.h","Expand/Extract loops, counters and remainder handling")
p("C08","Padding round-trips every block and rejects every malformed one",
"For every padding scheme and every block size, adding padding at any position and then measuring it returns exactly the number of bytes that were padded, and the message bytes are never altered. A block that the scheme could not have produced is reported as unpadded or refused, and no length or offset makes it read or write outside the given array.",
["inputs"],"every block size up to a bound, every pad offset, every final-block byte pattern from a complete small alphabet, both the plain and offset overloads",
"tests pad a handful of random blocks and check the length returned",
"ESP.cpp PKCS7.cpp X923.cpp ZeroOne.cpp PaddingFromName.cpp IPadding.h","AddPadding/GetPaddingLength")
p("C09","Streams and stream processors behave like the plain byte sequence they carry",
"Memory and file streams behave, for every sequence of reads, writes, seeks, length changes and resets, like a growing byte array with a position, and never touch memory outside their buffer. Cipher, digest and MAC stream processors produce for a whole stream exactly what the underlying primitive produces for the same bytes, for every input length, parallel setting, padding and progress callback, and decryption returns the original data.",
["histories","inputs","configurations"],"all operation sequences up to a depth on each stream against a byte-array model; all processing lengths around block and parallel boundaries for every processor configuration",
"tests write and read one buffer and process one random length",
"MemoryStream.cpp FileStream.cpp SecureStream.cpp CipherStream.cpp DigestStream.cpp MacStream.cpp StreamReader.cpp StreamWriter.cpp IByteStream.h","position/length bookkeeping and the block/remainder loops")
p("C10","Serialized keys and headers round-trip and malformed ones are rejected safely",
"Serializing any key or header object and reading it back yields an equal object, for every size of every field. A truncated, extended or corrupted serialization is either rejected with the library's exception or read within its own bounds, never outside them.",
["inputs","fault_sequences"],"every combination of field sizes around zero, small and legal sizes, and every truncation and every single-byte corruption of the serialized forms",
"tests round-trip one well-formed object of each kind",
"SymmetricKey.cpp SymmetricSecureKey.cpp SymmetricKeySize.h AsymmetricKey.cpp AsymmetricSecureKey.cpp SecureStream.cpp","Serialize/DeSerialize and the stream constructors")
p("C11","Key exchange and signatures agree for their owner and fail for everyone else",
"For every parameter set, decapsulating an honestly made ciphertext yields the sender's secret, verifying an honestly made signature succeeds and returns the message, and the result is a function of the supplied randomness only. Altering any byte of a ciphertext yields a different secret or a refusal, altering any byte of a signature, message or key makes verification fail, and a stateful signer never signs twice with one index.",
["inputs","fault_sequences","histories"],"every byte position altered in ciphertexts, signatures and messages over several seeds for each parameter set, and all operation sequences of a stateful signer up to its tree's end",
"tests do a few random round trips and alter one byte",
"Kyber.cpp KyberBase.cpp Dilithium.cpp DilithiumBase.cpp DLTMBase.cpp DLTMPolyMath.cpp ECDHBase.cpp ECDSABase.cpp ECDH.cpp ECDSA.cpp EC25519.cpp McEliece.cpp XMSS.cpp XmssCore.cpp SPXBase.cpp SphincsPlus.cpp","Encapsulate/Decapsulate, Sign/Verify and the encoders behind them")
p("C12","Enumerations, names and factories agree with one another",
"Every member of every algorithm enumeration converts to a name and back to itself, distinct members have distinct names, unknown names convert to the none value, and the factory given a member returns an instance that reports that member and name, or the member's family together with the variant it stands for. Members a factory does not support are refused with the library's exception.",
["inputs","configurations"],"every value of every enumeration's byte range, every name and every perturbation of a name, and every factory member",
"tests touch only the members they happen to instantiate",
"BlockCiphers.h CipherModes.h Digests.h Kdfs.h Macs.h Prngs.h Providers.h StreamCiphers.h PaddingModes.h AsymmetricPrimitives.h AsymmetricParameters.h Drbgs.h BlockCipherFromName.cpp CipherModeFromName.cpp DigestFromName.cpp MacFromName.cpp PrngFromName.cpp DrbgFromName.cpp KdfFromName.cpp PaddingFromName.cpp ProviderFromName.cpp StreamCipherFromName.cpp","ToName/FromName switch tables and GetInstance")
p("C13","Integer, memory and array helpers equal their scalar definitions",
"Every byte-order conversion, rotation, counter increment, constant-time compare/select, copy, clear, xor and set helper gives the result of its byte-by-byte definition for every length and offset, and touches exactly the bytes it is told to. Converting to bytes and back, and increment of multi-byte counters across any carry, are exact.",
["inputs"],"every length from zero past the widest vector plus remainder, every offset residue, every carry pattern over the byte alphabet {00,01,7f,80,fe,ff}, every element type",
"tests try a few random lengths and never construct multi-byte carries",
"IntegerTools.h MemoryTools.h ArrayTools.h Intrinsics.h","the templated loops with vector bodies and scalar tails")
p("C14","Secure containers and allocators behave as containers and wipe what they free",
"Secure vectors, locked memory and the memory pool return distinct, correctly sized, aligned and non-overlapping storage for every sequence of allocations and frees, keep contents intact until freed, and hand nothing out twice. Storage that held secret data is zeroed before it goes back to the system, and lock or allocation failures are reported or fall back without losing or corrupting data.",
["histories","fault_sequences"],"all allocate/write/resize/free sequences up to a depth with the system's page-lock and allocation calls failing at every point",
"tests allocate a handful of vectors and the operating system never fails under them",
"SecureVector.h SecureMemory.cpp LockingAllocator.cpp MemoryPool.cpp MemoryPool.h","free-list bookkeeping, page locking, clearing on deallocate")
p("C15","Entropy failures are always reported, never turned into predictable output",
"Whenever the operating system or processor source of randomness fails at any point of a request, the provider, generator or key producer that needed it raises an exception and never returns bytes that did not come from a working source. On success every requested byte, at every length and offset, is filled and comes from the source.",
["fault_sequences","inputs","histories"],"failure of each individual source call at every position in a request, for every provider, every request length around the source's unit, alone and underneath each generator and key producer",
"in tests the operating system's sources never fail",
"CSP.cpp RDP.cpp ECP.cpp CJP.cpp ACP.cpp ProviderFromName.cpp ProviderBase.h SymmetricKeyGenerator.cpp SecureRandom.cpp BCR.cpp CSR.cpp HCR.cpp","Generate overloads, self tests and return-code checks")
p("C16","Sockets deliver exactly the bytes sent, in order, through partial operations",
"Data sent over a connected socket pair arrives complete, in order and without extra bytes however the system splits sends and receives, and every failed system call surfaces as an exception or documented result instead of silent loss. Connect, accept, shutdown and close release every handle exactly once, and address conversion round-trips.",
["fault_sequences","histories"],"every partition of transfers into partial sends and receives up to a bound, every single failure point, and every order of connect, transfer and close up to a depth, on a simulated socket layer",
"there are no socket tests, and real loopback never splits or fails small transfers",
"SocketBase.cpp SocketClient.cpp SocketServer.cpp NetworkTools.cpp InternetAddress.h Socket.h","the send/receive loops, error mapping and handle ownership")
p("C17","Parallel loops, thread pools and events complete every task exactly once",
"A parallel loop runs its body exactly once for each index and returns only after all are finished, propagating the failure of any of them. A thread pool runs every queued task once and shuts down without loss or deadlock, and an event delivers each call to every handler registered at that time exactly once, under every interleaving.",
["schedules","fault_sequences"],"all interleavings up to a preemption bound of small closed programs over each primitive, with a body failing at each position",
"tests cannot choose the schedule, and no test covers the pool or events",
"ParallelTools.cpp ParallelTools.h ThreadPool.h Event.h EventHandler.h AsyncThread.h ParallelCallback.cpp","task futures, queue mutex and condition variable, handler list locks")
p("C18","Wide counter processing is exact for every counter value",
"Counter-driven ciphers and generators use exactly one counter value per block, in order, for every starting counter including those whose increments carry through any number of bytes or wrap, so the keystream equals the one-block-at-a-time definition on every SIMD and parallel path. Splitting the request differently never changes, repeats or skips a counter.",
["inputs","configurations"],"every starting counter from the carry-pattern alphabet at each position, every request length across each wide-lane boundary, each counter-driven cipher and generator, sequential and parallel",
"test vectors start from counters that never carry beyond a byte inside a wide group",
"CTR.cpp ICM.cpp GCM.cpp HBA.cpp RCS.cpp RWS.cpp BCG.cpp ChaChaP20.cpp CSX512.cpp TSX256.cpp TSX512.cpp TSX1024.cpp ChaCha.h Threefish.h IntegerTools.h","BeIncrement8/LeIncrement8/…Increase8 and the lane counter set-up of each wide generator")
p("C19","Block ciphers are keyed permutations with consistent wide forms",
"For every key, key size, engine and extension, decrypting an encrypted block returns it, and the 2-, 4-, 8- and 16-block transforms equal the single-block transform applied to each block, at any buffer offset. AES-sized Rijndael equals the AES standard, and hardware and table implementations of a cipher agree on every input.",
["inputs","configurations","histories"],"all single-bit and boundary-pattern keys and blocks, every engine/key size/extension combination, every wide width and offset, re-keying histories, each detected-feature profile",
"tests use fixed vectors and random loops through one engine",
"RHX.cpp SHX.cpp Rijndael.h Serpent.h BlockCipherFromName.cpp IBlockCipher.h","key schedule, round functions and Transform512/1024/2048")
p("C20","Instances are independent of one another across threads",
"Objects used concurrently from different threads, one per thread, produce the results they would produce alone, including first-use initialisation of any shared tables, feature detection or providers. Creating, using and destroying one instance never changes another.",
["schedules","histories"],"all interleavings up to a preemption bound of two threads each driving its own instance of each algorithm family, and all pairs of operations on two instances in one thread",
"tests use one instance on one thread at a time",
"CpuDetect.cpp ParallelOptions.cpp SystemTools.cpp EC25519.cpp RHX.cpp SHX.cpp Keccak.cpp MemoryPool.cpp LockingAllocator.cpp ECP.cpp","static tables, function-local statics and shared helpers")
p("C21","Key material is erased when an instance is reset or destroyed",
"After an object that held a key, seed, password or plaintext-derived state is destroyed or cleared, none of the storage it released to the allocator still contains that secret. A reset or destroyed instance cannot be used to produce output under the old key.",
["histories","configurations"],"every algorithm family, driven through each lifecycle stage and then reset, re-keyed or destroyed, with every byte of released memory inspected for the key and its derived schedule",
"tests never look at released memory",
"SymmetricKey.cpp SymmetricSecureKey.cpp SecureVector.h RHX.cpp SHX.cpp RCS.cpp HMAC.cpp KMAC.cpp HKDF.cpp PBKDF2.cpp CTR.cpp","Reset and destructor clearing")
p("C22","SIMD integer wrappers compute lane-wise scalar arithmetic",
"Every operation of the 128- and 256-bit integer wrappers, including loads, stores, interleaved and transposed forms, shifts, rotations, comparisons and byte swaps, equals the scalar operation applied to each lane. Loading and storing round-trip at any alignment and touch only the bytes of the vector.",
["inputs"],"every operation with every pair of boundary lane values, every shift and rotation count, every lane position distinguished",
"tests run one random value per operation",
"UInt128.h UInt256.h UInt512.h ULong256.h ULong512.h UShort128.h","operator overloads over intrinsics")
p("C23","Random numbers and keys lie in range, are complete and follow their source",
"Bounded random values lie within the requested minimum and maximum for every bound and every source output, all values of the range are reachable and none is favoured, filled arrays are completely filled, and generated keys have exactly the requested sizes. Each value is a deterministic function of the bytes of the underlying generator, and bytes are never reused.",
["inputs","histories"],"every (min,max) pair from the boundary alphabet and every scripted source output, all request sequences up to a depth across buffer refills",
"tests draw a few values and check that they are in range",
"SecureRandom.cpp SymmetricKeyGenerator.cpp BCR.cpp CSR.cpp HCR.cpp PrngBase.h IPrng.h","Next overloads, rejection sampling, buffer refill index")
p("C24","Authenticator and curve arithmetic is exact at every carry",
"Poly1305, GHASH, carry-less multiplication and Curve25519/Ed25519 operations equal exact big-integer or polynomial arithmetic for every input, including operands that provoke maximal carries and reductions, on each implementation path. Non-canonical or boundary encodings give the mathematically defined result or a refusal.",
["inputs","configurations"],"all operands from boundary limb alphabets, all message lengths over several blocks, each implementation path, against exact arithmetic and an independent implementation",
"test vectors almost never exercise maximal carries",
"Poly1305.cpp GHASH.cpp GMAC.cpp CMUL.h EC25519.cpp ECDH.cpp ECDSA.cpp","limb multiplication, reduction and final subtraction")
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import os
for x in P:
    assert len(x["title"])<=80,x["title"]
    for fn in x["anchors"]["files"]:
        if not os.path.exists("/repo/"+fn): print(x["id"],"missing",fn)
