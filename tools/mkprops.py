import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=[],observe=[]):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","Half-gate evaluation yields the right label on every wire",
 "Whenever one party garbles and the other evaluates the same sequence of gates with the half-gate scheme over a faithful channel, the label the evaluator ends up with on every wire is the generator's zero label of that wire, XORed with the global offset exactly when the plaintext value of the wire is 1. Every AND gate makes the generator send exactly the bytes the evaluator consumes for it, and XOR gates, NOT gates and public constants send nothing. The global offset always has its lowest bit set, and both parties report the exact number of AND gates processed.",
 ["inputs","histories","programs"],"all label values, offsets, hash start points and wire values; all gate sequences",
 "test/halfgate.cpp samples a few random labels for a single AND gate and test/garble.cpp never compares an evaluated label with anything; no test covers XOR/NOT/constants, the offset's lowest bit or the AND counter.",
 ["emp-tool/gc/halfgate_gen.h","emp-tool/gc/halfgate_eva.h","emp-tool/utils/mitccrh.h","emp-tool/utils/block.h"],
 [("halfgates_garble / halfgates_eval","emp-tool/gc/halfgate_gen.h, emp-tool/gc/halfgate_eva.h"),("HalfGateGen/HalfGateEva set_delta, and_gate, xor_gate, not_gate, num_and","emp-tool/gc/halfgate_gen.h, emp-tool/gc/halfgate_eva.h")],
 [("delta","global offset, LSB 1","HalfGateGen"),("mitccrh","hash key stream, advanced in lockstep by both parties","HalfGateGen, HalfGateEva")],
 ["labels returned by and_gate/xor_gate/not_gate/public_label","bytes moved through the channel","num_and()"])

p("C02","Garbling never hands the evaluator the offset or an inactive label",
 "From everything the generator sends, together with one label per input wire and every hash value it can compute from labels it holds, the evaluator cannot obtain by XOR the global offset or the inactive label of any wire, whatever the wire values are. No two AND gates of one execution are garbled under the same hash key or tweak. Every offset, constant label and hash start point is drawn afresh from the random generator.",
 ["inputs","histories","programs"],"all wire values and all gate sequences of both garbling schemes",
 "Secrecy is not an output a test can compare: a scheme that leaks the offset still evaluates correctly, so every existing test passes.",
 ["emp-tool/gc/halfgate_gen.h","emp-tool/gc/privacy_free_gen.h","emp-tool/utils/mitccrh.h"],
 [("rows masked with hashes of both labels","halfgates_garble, privacy_free_garble"),("key/tweak advanced per gate","MITCCRH::renew_ks, PrivacyFreeGen::gid")],
 [("table rows","what is sent per AND gate","HalfGateGen::and_gate, PrivacyFreeGen::and_gate")],["bytes sent by the generator"])

p("C03","Multi-instance hash uses each 64-bit key index once, in order",
 "Hashing K groups of H blocks returns, for every block of group k, the block XORed with its AES-128 encryption under the k-th next key, where key number i is the start point XORed with i in its upper 64 bits; the circular variant does the same to the image of the block under the linear orthomorphism. Key indices start at the chosen value, increase by one per group over the full 64-bit range (when a call needs more keys than the prepared batch has left, the rest of that batch is skipped) and are never reused, for any sequence of calls with any mixture of supported shapes. No key outside the currently prepared batch is ever read.",
 ["inputs","histories"],"all blocks, start points and starting indices; all call sequences mixing shapes",
 "test/mitccrh.cpp checks two fixed shapes for indices below 1024 and re-prepares the keys by hand before it mixes shapes.",
 ["emp-tool/utils/mitccrh.h","emp-tool/utils/aes_opt.h"],
 [("renew_ks / hash / hash_cir","emp-tool/utils/mitccrh.h"),("AES_opt_key_schedule, ParaEnc","emp-tool/utils/aes_opt.h")],
 [("gid","next key index","MITCCRH"),("key_used","keys of the batch already consumed","MITCCRH")],["blocks returned by hash/hash_cir"])

p("C04","Privacy-free evaluation yields the right label on every wire",
 "Whenever one party garbles and the other evaluates the same sequence of gates with the privacy-free scheme, the label the evaluator ends up with on every wire equals the generator's zero label of that wire, XORed with the global offset exactly when the plaintext value is 1, and its lowest bit is that plaintext value. Per AND gate both sides move the same bytes and use the same tweak; XOR, NOT and constants move none. The AND counters of both parties are exact.",
 ["inputs","histories","programs"],"all label values, offsets and wire values; all gate sequences",
 "No test touches the privacy-free classes.",
 ["emp-tool/gc/privacy_free_gen.h","emp-tool/gc/privacy_free_eva.h"],
 [("privacy_free_garble / privacy_free_eval","emp-tool/gc/privacy_free_gen.h, emp-tool/gc/privacy_free_eva.h")],
 [("gid","tweak, one per AND gate","PrivacyFreeGen, PrivacyFreeEva")],["labels returned by the gate functions","bytes moved through the channel"])

p("C05","Plaintext backend computes and records exactly the requested circuit",
 "In the plaintext backend every AND, XOR and NOT of any mixture of public and private operands carries the Boolean value of the operation, and a public constant never becomes private or changes value. When recording is on, the circuit file written at the end, evaluated on the fed inputs (first party's inputs first, all fed before the first gate), yields bit for bit the values that were revealed, for private and public outputs alike, and its header counts match its gates and wires. The AND counter equals the number of AND gates recorded.",
 ["inputs","programs"],"all combinations of operand kinds and values; all gate sequences",
 "test/gen_circuit.cpp only checks that one recorded circuit can be parsed; test/bit.cpp never records, and no test compares a recorded circuit with what was revealed.",
 ["emp-tool/execution/plain_circ.h","emp-tool/execution/plain_prot.h"],
 [("PlainCircExec gates","emp-tool/execution/plain_circ.h"),("PlainProt feed/reveal/finalize, finalize_plain_prot","emp-tool/execution/plain_prot.h")],
 [("gid","next wire number","PlainCircExec"),("output_vec","wires revealed","PlainProt")],["revealed values","recorded file","num_and()"])

p("C06","Integer arithmetic is exact two's-complement arithmetic at every width",
 "For every width and every operand value, addition, subtraction, multiplication, negation, absolute value, bitwise operations and shifts by public or secret amounts give the two's-complement result modulo 2^width (right shifts are logical, secret amounts are below the width). For every non-zero divisor, division truncates towards zero and the remainder takes the sign of the dividend; modular exponentiation with an unsigned exponent equals repeated multiply-and-reduce. Population count, leading-zero count and resizing with or without sign extension give the exact value.",
 ["inputs","configurations"],"all operand values and widths",
 "test/int.cpp samples 1000 random pairs per operator at width 32 only, rejecting operands that overflow; shifts, abs, resize, hamming weight, leading zeros and modular exponentiation are never checked.",
 ["emp-tool/circuits/integer.hpp","emp-tool/circuits/integer.h","emp-tool/circuits/bit.hpp"],
 [("add_full, sub_full, mul_full, div_full, condNeg, ifThenElse","emp-tool/circuits/integer.hpp"),("Integer operators","emp-tool/circuits/integer.hpp")],[],["revealed value of the result"])

p("C07","Comparisons, selection, conditional swap and sorting are exact",
 "For every width and value, the six signed comparisons of integers agree with the mathematical order, equality compares all bits, and selection returns exactly the chosen operand. A conditional swap exchanges both operands when its condition is 1 and leaves them alone otherwise. Sorting any number of keys, ascending or descending, returns a sorted permutation of them, and an attached data array is permuted identically.",
 ["inputs","configurations"],"all values, widths and array lengths",
 "No test checks a comparison, a selection or a sorted result; test/gen_circuit.cpp only records a sort.",
 ["emp-tool/circuits/comparable.h","emp-tool/circuits/swappable.h","emp-tool/circuits/number.h","emp-tool/circuits/integer.hpp","emp-tool/circuits/bit.hpp"],
 [("Integer::geq/equal/select, Comparable operators","emp-tool/circuits/integer.hpp, emp-tool/circuits/comparable.h"),("If, swap","emp-tool/circuits/swappable.h"),("bitonic_sort, bitonic_merge, cmp_swap","emp-tool/circuits/number.h")],[],["revealed results"])

p("C08","Circuit library is oblivious: gates issued never depend on wire values",
 "Building any circuit with bits, integers, floats, sorting, circuit files or in-circuit AES issues the same gates, on the same operand wires and in the same order, for all values the wires can carry; only public parameters such as widths, lengths and shift amounts given in the clear matter. No branch taken and no memory address touched depends on the value of a wire.",
 ["inputs","programs"],"all wire values; every operation of the circuit library",
 "The tests look at results only; a value-dependent shortcut yields the right result and passes while breaking every protocol built on top.",
 ["emp-tool/circuits/bit.hpp","emp-tool/circuits/integer.hpp","emp-tool/circuits/float32.hpp","emp-tool/circuits/number.h","emp-tool/circuits/swappable.h","emp-tool/circuits/circuit_file.h","emp-tool/circuits/aes_128_ctr.h"],
 [("straight-line gate code over labels","emp-tool/circuits")],[],["gate calls made on the execution backend"])

p("C09","Host data enters and leaves circuits unchanged",
 "Feeding a host value as a bit, integer of any width (from a number or from raw memory) or float and revealing it again, as number, bit string, raw memory or float, gives back exactly the same bits, for every owner. The conversions between host integers, 128-bit blocks and bool arrays are mutually inverse, least significant bit first (or last, when reversal is asked for), and touch exactly the requested number of entries.",
 ["inputs","configurations"],"all values, widths, owners, source and destination types",
 "test/to_bool.cpp moves one fixed array without reversal; other conversions are only exercised at 32 bits.",
 ["emp-tool/utils/utils.hpp","emp-tool/circuits/integer.hpp","emp-tool/circuits/bit.hpp","emp-tool/circuits/float32.hpp","emp-tool/execution/plain_prot.h"],
 [("int_to_bool, bool_to_int, to_bool, from_bool, bool_to_block, block_to_bool","emp-tool/utils/utils.hpp"),("Integer constructors, reveal","emp-tool/circuits/integer.hpp"),("Float constructor, reveal","emp-tool/circuits/float32.hpp")],[],["revealed values, bool arrays"])

p("C10","Float comparison and bit-level operations are exact",
 "For every pair of non-NaN inputs, float equality, less-than and less-or-equal agree with IEEE-754 single precision order, subnormal operands counting as zero. Negation flips only the sign bit, absolute value clears only the sign bit, XOR and AND act on the 32-bit patterns, and conditional selection and swap move complete values.",
 ["inputs"],"all pairs of 32-bit patterns",
 "test/float.cpp prints the result of four comparisons without checking them.",
 ["emp-tool/circuits/float32_eq.cpp","emp-tool/circuits/float32_le.cpp","emp-tool/circuits/float32_leq.cpp","emp-tool/circuits/float32.hpp"],
 [("gate tables of equal, less_than, less_equal","emp-tool/circuits/float32_{eq,le,leq}.cpp"),("Float::abs, operator-, operator^, operator&, If","emp-tool/circuits/float32.hpp")],[],["revealed results"])

p("C11","Float arithmetic circuits are well formed and agree with IEEE arithmetic",
 "Every float operation runs a gate list in which each gate reads only wires computed before it, stays inside the wire array, and computes all 32 result wires. Addition, subtraction, multiplication, division, squaring and square root of normal numbers are correctly rounded whenever the exact result is zero or within the normal range. On every input, these and the transcendental functions return exactly the bits of the reviewed circuits shipped today, and leave their operands unchanged.",
 ["inputs"],"all 32-bit input patterns",
 "test/float.cpp samples 1000 random mid-range inputs per operation; zeros, infinities, denormals, ties and extreme exponents are never reached.",
 ["emp-tool/circuits/float32_add.cpp","emp-tool/circuits/float32_sub.cpp","emp-tool/circuits/float32_mul.cpp","emp-tool/circuits/float32_div.cpp","emp-tool/circuits/float32_sq.cpp","emp-tool/circuits/float32_sqrt.cpp","emp-tool/circuits/float32_sin.cpp","emp-tool/circuits/float32_cos.cpp","emp-tool/circuits/float32_exp.cpp","emp-tool/circuits/float32_exp2.cpp","emp-tool/circuits/float32_ln.cpp","emp-tool/circuits/float32_log2.cpp","emp-tool/circuits/circuit_file.h"],
 [("constant gate tables","emp-tool/circuits/float32_*.cpp"),("execute_circuit","emp-tool/circuits/circuit_file.h")],[],["revealed results"])

p("C12","Circuit files are executed gate for gate",
 "Loading any well-formed circuit description in either supported text format and running it, once or repeatedly, gives for every output exactly the Boolean function its AND, XOR and INV lines describe on the inputs supplied, with inputs and outputs at the positions the header fixes. Loading another description into the same object replaces the previous one completely, exporting and rebuilding from the exported table preserves the circuit, and no line of the file makes the loader write outside its own storage.",
 ["inputs","programs","histories"],"all circuits, input labels and load/run sequences",
 "test/garble.cpp runs one AES circuit without looking at the result; test/aes_128_ctr.cpp evaluates a single circuit.",
 ["emp-tool/circuits/circuit_file.h"],
 [("BristolFormat, BristolFashion from_file/compute, execute_circuit","emp-tool/circuits/circuit_file.h")],
 [("gates","four numbers per gate","BristolFormat, BristolFashion")],["output labels"])

p("C13","AES code is FIPS-197 AES-128 for every key and block",
 "For every key and every number of blocks, encryption is FIPS-197 AES-128, decryption with the derived decryption key is its inverse, and blocks outside the given range are untouched. The batched key schedule produces the same round keys as the single-key schedule, and the multi-key encryption encrypts the j-th block of group i under key i.",
 ["inputs"],"all keys, all blocks, all batch shapes",
 "test/aes_opt.cpp compares schedules on random keys and one FIPS vector for at most two blocks; decryption is checked on one block.",
 ["emp-tool/utils/aes.h","emp-tool/utils/aes_opt.h"],
 [("AES_set_encrypt_key, AES_ecb_encrypt_blks, AES_set_decrypt_key, AES_ecb_decrypt_blks","emp-tool/utils/aes.h"),("AES_opt_key_schedule, ParaEnc","emp-tool/utils/aes_opt.h")],[],["cipher output"])

p("C14","PRG output is one well-defined stream per seed, never repeated",
 "For a given seed and stream id the generator's blocks are AES under seed XOR id of the counter values 0, 1, 2, ... in order, for every way of splitting requests, and every 64-bit counter value is used at most once per seed. Reseeding makes all later output a function of the new seed alone, whatever was requested before. Every request fills exactly the requested bytes and nothing else, for every length and alignment, and random bools are 0 or 1.",
 ["inputs","histories"],"all seeds, ids, request sequences, lengths and alignments",
 "test/prg.cpp compares unaligned requests below 64 bytes with one reference and otherwise measures speed; block order, long requests, the 64-bit integer interface and reseeding are not checked.",
 ["emp-tool/utils/prg.h"],
 [("reseed, random_block, random_data, random_data_unaligned, random_bool, operator()","emp-tool/utils/prg.h")],
 [("counter","next AES input","PRG"),("buffer/ptr","pending 64-bit outputs","PRG")],["bytes produced"])

p("C15","Unseeded generators take a full 128-bit seed from the entropy source",
 "A generator constructed without a seed keys itself with 128 bits, each coming from a fresh reading of the configured entropy source, with no bit fixed, repeated or derived from another; if the hardware source keeps failing the program stops instead of continuing with a weak seed. Secrets of the garbling schemes come from such generators.",
 ["inputs","configurations","fault_sequences"],"all entropy values, both entropy sources, all failure patterns of the hardware source",
 "A weak seed produces output that looks random, so no output test can see it; the hardware-entropy variant is not even compiled.",
 ["emp-tool/utils/prg.h","emp-tool/gc/halfgate_gen.h","emp-tool/gc/privacy_free_gen.h"],
 [("PRG::PRG","emp-tool/utils/prg.h")],[],["key derived from entropy"])

p("C16","Permutation and correlation-robust hashes match their definitions in every form",
 "Permuting n blocks encrypts each of them exactly once under the object's key, which is the key given at construction (a public constant when none is given). The three fixed-key hashes return pi(x)+x, pi(s(x))+s(x) with s the linear orthomorphism, and pi(pi(x)+i)+pi(x) with i the tweak; the single-block, fixed-size and variable-size forms agree for every count, starting tweak, with or without caller scratch space, and also when the output overwrites the input.",
 ["inputs","configurations"],"all keys, blocks, counts, tweaks and aliasing of output and input",
 "test/prp.cpp measures speed; the three hashes have no test at all.",
 ["emp-tool/utils/prp.h","emp-tool/utils/crh.h","emp-tool/utils/ccrh.h","emp-tool/utils/tccrh.h","emp-tool/utils/block.h"],
 [("PRP::permute_block and constructors","emp-tool/utils/prp.h"),("H, H<n>, Hn","emp-tool/utils/crh.h, ccrh.h, tccrh.h")],[],["hash outputs"])

p("C17","GF(2^128) arithmetic is exact",
 "For all operands, the field product is polynomial multiplication modulo x^128+x^7+x^2+x+1 and the reflected product is the bit-reflected counterpart; the unreduced product is the full 255-bit carry-less product. Inner products, with and without reduction, the consecutive powers of a seed, packing with powers of x, and the XOR of a vector equal their mathematical definitions for every length and write exactly the stated number of entries.",
 ["inputs"],"all operands and lengths",
 "test/f2k.cpp compares on random samples for a few lengths.",
 ["emp-tool/utils/f2k.h"],
 [("mul128, reduce, reduce_reflect, gfmul, gfmul_reflect, vector_inn_prdt_*, uni_hash_coeff_gen, GaloisFieldPacking, vector_self_xor","emp-tool/utils/f2k.h")],[],["field elements returned"])

p("C18","Bit-matrix transpose and block helpers are exact",
 "Transposing an r-by-c bit matrix (both multiples of 8) puts bit (i,j) of the input at (j,i) of the output, for every r, c and content, writing exactly r*c/8 bytes. The block helpers agree with their meaning for all values: lowest bit, setting bit i, building from two 64-bit halves, the linear orthomorphism, array XOR (also in place), and block-array equality, which is true exactly when all blocks are equal.",
 ["inputs","configurations"],"all matrices and sizes, all blocks",
 "No test calls the transpose; block comparison is only ever asked about equal or random blocks.",
 ["emp-tool/utils/block.h"],
 [("sse_trans, getLSB, set_bit, makeBlock, sigma, xorBlocks_arr, cmpBlock","emp-tool/utils/block.h")],[],["memory written, values returned"])

p("C19","Typed messages decode to what was encoded, for every size and address",
 "Blocks, bool arrays and curve points sent with the typed operations are received by the matching typed operation as the same values, whatever their number and wherever the sender's and receiver's arrays lie in memory, and the receiver consumes exactly the bytes the sender produced. The channel's byte counter grows by exactly the bytes handed to the transport. A received point encoding longer than 2048 bytes or not on the curve stops the program instead of being used.",
 ["inputs","configurations"],"all lengths, all alignments of both arrays, all contents",
 "test/netio.cpp sends one aligned and one offset-by-seven array to a receiver with the same alignment; points are never sent.",
 ["emp-tool/io/io_channel.h"],
 [("send_bool/recv_bool, send_bool_aligned/recv_bool_aligned, send_block/recv_block, send_pt/recv_pt, send_data","emp-tool/io/io_channel.h")],
 [("counter","bytes sent","IOChannel")],["bytes handed to the transport, values received"])

p("C20","Every channel delivers exactly the bytes sent, in order, or stops the program",
 "For the socket, dual-socket, file and in-memory channels a completed send has handed over every byte once and in order, also when the operating system accepts them piecemeal, and a completed receive has filled exactly the requested bytes with the next bytes of the stream. If the peer is gone, the file ends or the memory channel has too little data, the program stops with an error: no operation returns with part of the data missing and none retries for ever. Lengths are not truncated on the way, and no internal buffer is read or written outside its bounds, for any sequence of operations.",
 ["inputs","histories","fault_sequences"],"all lengths, contents, sequences of operations, partial transfers and end-of-stream points",
 "The network tests run on loopback with cooperative peers and a handful of sizes; short writes, disconnects, end of file and buffer wrap-around positions are not exercised, and the file and memory channels are not compared at all.",
 ["emp-tool/io/net_io_channel.h","emp-tool/io/highspeed_net_io_channel.h","emp-tool/io/file_io_channel.h","emp-tool/io/mem_io_channel.h"],
 [("send_data_internal / recv_data_internal loops","emp-tool/io/*.h"),("SenderSubChannel, RecverSubChannel","emp-tool/io/highspeed_net_io_channel.h")],
 [("ptr","position in the 32 KiB block","SubChannel"),("size/read_pos/cap","extent of the memory channel","MemIO")],["stream contents, memory written, process exit"])

p("C21","A channel never waits for the peer with unsent data in its buffers",
 "Before a socket channel blocks in a receive, everything previously passed to send has been flushed to the operating system, for every interleaving of sends, receives, syncs and flushes, so two parties that alternate messages cannot deadlock. Destroying a channel flushes what is pending before the connection is closed. On the single-socket channel, synchronisation makes both parties exchange one byte each and returns only after the peer reached it (the two-socket high-speed channel's synchronisation is documented by the code as doing nothing).",
 ["schedules","histories"],"all sequences of operations on either side",
 "The two loopback tests use one message pattern each; a missing flush only hangs for patterns where the peer happens to wait.",
 ["emp-tool/io/net_io_channel.h","emp-tool/io/highspeed_net_io_channel.h"],
 [("has_sent / fflush before fread, sync, destructor","emp-tool/io/net_io_channel.h"),("FSM-driven flush","emp-tool/io/highspeed_net_io_channel.h")],
 [("has_sent","unflushed output exists","NetIO"),("FSM","last direction used","HighSpeedNetIO")],["order of flush and blocking read"])

p("C22","Hash of a stream does not depend on how it was chunked",
 "For every sequence of put calls with any chunk sizes, the digest is SHA-256 of the concatenation of all bytes put since construction, the last digest or reset. After a digest or reset the object behaves as new. The block derived from a point and a 64-bit id is the first 128 bits of the digest of the point's encoding followed by the 8 bytes of the id. No chunk size makes it access memory outside the caller's data or its own buffer.",
 ["inputs","histories"],"all chunk sequences and contents",
 "test/hash.cpp never looks at a digest and always feeds one chunk per digest.",
 ["emp-tool/utils/hash.h"],
 [("Hash::put, digest, reset, hash_once","emp-tool/utils/hash.h")],[("size","bytes pending in the buffer","Hash")],["digest"])

p("C23","Thread pool runs every accepted task exactly once and shuts down cleanly",
 "Every task accepted by the pool is run exactly once by some worker, outside the pool's lock, even if shutdown starts right after it was accepted; destruction returns only after all accepted tasks have finished and all workers have ended. Shared queue state is only touched with the lock held, no wake-up is lost, and submitting after shutdown began is refused with an exception.",
 ["schedules"],"all interleavings of submitters, workers and the destructor",
 "No test uses the thread pool.",
 ["emp-tool/utils/ThreadPool.h"],
 [("worker loop, enqueue, destructor","emp-tool/utils/ThreadPool.h")],[("tasks, stop","guarded by queue_mutex","ThreadPool")],["tasks run, thread termination"])

p("C24","Elliptic-curve wrappers own their objects and never ignore a failure",
 "Copying, assigning, adding, multiplying, inverting and decoding points and big integers never leaks, shares or double-frees the underlying library objects, whatever the sequence of operations. Any failing elliptic-curve operation stops the program; no result of a failed operation is used. Encoding writes at most the announced number of bytes into a buffer large enough for it.",
 ["histories","fault_sequences"],"all sequences of operations and all failing library calls",
 "test/ecc.cpp runs one happy-path sequence.",
 ["emp-tool/utils/group.h","emp-tool/utils/group_openssl.h","emp-tool/utils/hash.h","emp-tool/io/io_channel.h"],
 [("BigInt, Point, Group special members and operations","emp-tool/utils/group_openssl.h")],[("point, n, scratch","owned library objects","Point, BigInt, Group")],["library calls made"])

p("C25","AES-CTR gives the same stream in and out of circuit, from any offset",
 "For every key, IV, length and range of chunk numbers below 2^64, counter-mode encryption outside the circuit, with key and IV inside the circuit, with only the key inside, and with neither inside, all XOR the data with AES of the 128-bit big-endian counter IV+start, IV+start+1, ...; encrypting from a chunk offset equals the corresponding part of the whole stream. In-place, separate-output and keystream-only use agree, and exactly the requested number of bits is written. Keys, IVs and offsets given in the clear enter the circuit as inputs of the named party, and a failing cipher call is reported.",
 ["inputs","configurations"],"all keys, IVs (including carries across the counter), lengths, offsets",
 "test/aes_128_ctr.cpp uses a single key, IV, length and offset.",
 ["emp-tool/circuits/aes_128_ctr.h","emp-tool/circuits/circuit_file.h"],
 [("aes_128_ctr, AES_128_CTR_Calculator","emp-tool/circuits/aes_128_ctr.h")],[("keyiv, counter","circuit inputs","AES_128_CTR_Calculator")],["ciphertext"])

p("C26","Files, sockets, buffers and contexts are released exactly once",
 "Every stream, socket, buffer and library context a channel, hash, generator, circuit operation or plaintext backend acquires is released exactly once on every path through its construction, use and destruction, and never used afterwards; a stream's buffer outlives the stream. Failed connection attempts and listening sockets are closed.",
 ["histories","fault_sequences"],"all paths through constructors, operations and destructors",
 "Leaks, double closes and use after release are invisible to the tests: a double close only hurts when another thread reuses the descriptor.",
 ["emp-tool/io/net_io_channel.h","emp-tool/io/highspeed_net_io_channel.h","emp-tool/io/file_io_channel.h","emp-tool/io/mem_io_channel.h","emp-tool/utils/hash.h","emp-tool/utils/crh.h","emp-tool/circuits/integer.hpp","emp-tool/utils/utils.hpp"],
 [("constructors and destructors","emp-tool/io/*.h, emp-tool/utils/hash.h")],[],["resource calls made"])

p("C27","With threading enabled each thread has its own execution backend",
 "When the library is built for multi-threading, the current circuit backend and protocol backend are per-thread: installing one in a thread never affects gates issued by another. In every configuration the gate functions of all circuit types go to the backend installed at that moment and nowhere else, and never use a wire of another backend. The circuit library keeps no other mutable state shared between threads.",
 ["schedules","configurations"],"all threads and both build configurations",
 "The threading configuration is not built by the tests.",
 ["emp-tool/execution/circuit_execution.h","emp-tool/execution/protocol_execution.h","emp-tool/emp-tool.cpp"],
 [("thread-local backend pointers","emp-tool/execution/*.h, emp-tool/emp-tool.cpp")],[("circ_exec, prot_exec","installed backends","CircuitExecution, ProtocolExecution")],["which backend a gate reaches"])
p("C28","SHA3-256 helpers hash exactly the given message and are reusable",
 "The host-side SHA3-256 writes the SHA3-256 digest of all length*sizeof(T) bytes of the array, leaves the array alone, returns 0 on success and a negative number whenever a library call fails, and releases its context either way. For every message of whole bytes, given as one or several arrays of wires or integers, the in-circuit calculator absorbs the concatenated bits in order at 1088 bits per block, pads with the byte 0x06 after the message and 0x80 in the last byte of the final block, applies the permutation circuit once per block and returns the first 256 state bits (state bit i on circuit wire 8*(199-i/8)+i%8), for every output form. Input wires are unchanged and a calculator can be used for any number of hashes.",
 ["inputs","configurations","histories"],"all message bits, lengths and splits; all call sequences; all points of library failure",
 "The SHA3 test does not build here because its permutation circuit file is missing, and it never covers block boundaries, split inputs or library failures.",
 ["emp-tool/circuits/sha3_256.h","emp-tool/circuits/circuit_file.h"],
 [("sha3_256","emp-tool/circuits/sha3_256.h"),("SHA3_256_Calculator::sha3_256, keccak_address_translator","emp-tool/circuits/sha3_256.h")],
 [("blocks","sponge state, 1600 wires","SHA3_256_Calculator")],["digest bytes","result wires","return code"])

p("C29","The shipped circuit files compute the functions they are named after",
 "Every circuit file that comes with the library is well formed (its counts are right, every wire is set exactly once and before it is used, the announced inputs and outputs exist) and computes its function for every input: AES-128/192/256 encryption (fashion: key then plaintext, wire 0 the last bit of the big-endian string; AES-non-expanded: plaintext then key, wire 0 the first bit), the SHA-256 compression function (sha256.txt: message block then chaining value) or the SHA-256 and SHA-1 hash of one block from the standard initial value (sha-256.txt, sha-1.txt), and 32-bit addition with carry (adder_32bit.txt).",
 ["inputs"],"all inputs of every shipped circuit",
 "test/garble.cpp loads only AES-non-expanded and times it without looking at the result; the AES-CTR test is not among the stable tests, and no test evaluates the SHA or adder circuits.",
 ["emp-tool/circuits/files/bristol_fashion/aes_128.txt","emp-tool/circuits/files/bristol_fashion/sha256.txt","emp-tool/circuits/files/bristol_format/AES-non-expanded.txt","emp-tool/circuits/files/bristol_format/sha-256.txt"],
 [("gate lists","emp-tool/circuits/files/")],[],["output wires of the evaluated circuit"])

p("C30","A socket channel connects to exactly the requested endpoint",
 "A socket channel (single or dual) constructed without an address listens, on every local interface, at exactly the given TCP port or ports; one constructed with an address connects to exactly that IPv4 address and those ports, in the same order as the server listens, trying again as often as needed until the server is there. A port outside 0..65535 is refused by an exception before any socket is bound or connected and with nothing left acquired; if the system refuses the port, the server's program ends with a failure status instead of going on without a connection.",
 ["inputs","fault_sequences"],"all addresses, ports and numbers of refused connection attempts",
 "The tests connect over the loopback interface at a few fixed valid ports, so a channel bound to the wrong interface, a truncated port or a bounded number of attempts passes.",
 ["emp-tool/io/net_io_channel.h","emp-tool/io/highspeed_net_io_channel.h"],
 [("constructors, server_listen, client_connect","emp-tool/io/net_io_channel.h, emp-tool/io/highspeed_net_io_channel.h")],[],["addresses given to bind and connect","exceptions","exit status"])

p("C31","Fatal errors end the program visibly; host helpers are exact",
 "error() never returns: it writes the caller's message, whatever characters it contains, verbatim to standard error, followed by line and file name when a file is given, and ends the program with a failure status. file_exists tells whether the file can be read and neither creates nor changes nor keeps open any file; parse_party_and_port reads the first two decimal arguments; time_from is the number of whole microseconds since the given start; run_function calls the given function once with the given arguments; delete_array_null releases an array once and accepts null; a block printed to a stream is the 16 hexadecimal digits of its upper half, a blank and those of its lower half, and later numbers are printed in decimal again.",
 ["inputs"],"all messages, file sets, arguments, clock readings and block values",
 "No test ever reaches error(), looks at its output or its exit status, or checks any of the helpers' results; a stop that looks like success is invisible until a script relies on it.",
 ["emp-tool/utils/utils.hpp","emp-tool/utils/utils.h","emp-tool/utils/block.h"],
 [("error, file_exists, parse_party_and_port, time_from, run_function, delete_array_null","emp-tool/utils/utils.hpp"),("operator<<","emp-tool/utils/block.h")],[],["text on standard error","exit status","return values","characters written to the stream"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
