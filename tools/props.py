# (id, title, statement, quantified over, quantifier text, why tests cannot, files, [(mechanism, where)])
I = ["inputs"]; H = ["histories"]; IH = ["inputs", "histories"]; IC = ["inputs", "configurations"]
PROPS = [
("C01", "Consensus schedule: versions, maturity, horizons, weights and fees",
 "For every height and network the required block version, the coinbase maturity and cut-through horizons, the secondary proof-of-work ratio and the graph weight follow the published consensus schedule. Body weights and minimum fees are the published linear functions of input, output and kernel counts.",
 IC, "every 64-bit height on every network, every count below 2^32, every edge bits value",
 "Tests sample a handful of heights around forks; one wrong constant or comparison at another height forks the node off the network.",
 ["include/Consensus.h", "include/Core/Util/FeeUtil.h"], [("constants and schedule functions", "include/Consensus.h"), ("fee formula", "include/Core/Util/FeeUtil.h")]),
("C02", "Next difficulty follows the published retarget rules on every chain",
 "The difficulty and secondary scaling required of a block are the published function of the preceding headers: the 60-block damped moving average with clamped block times before the last fork, and the weighted-target exponential moving average after it. No header history can make the computation differ, wrap around or fail.",
 IH, "all timestamps, difficulties, scaling factors and proof types of the preceding window, any height",
 "Tests replay one fixed chain; the rule must hold for every combination of times and difficulties a miner may produce.",
 ["src/PoW/DifficultyCalculator.cpp", "src/PoW/DifficultyLoader.h"], [("damped moving average and wtema", "src/PoW/DifficultyCalculator.cpp"), ("window loading and padding before genesis", "src/PoW/DifficultyLoader.h")]),
("C03", "A header is accepted only with a proof of work that meets its target",
 "A proof of work is accepted exactly when its edge bits belong to an allowed algorithm, the total difficulty grows by the required difficulty, the scaling factor is the required one, the proof's own difficulty reaches that target, and the cycle verifier for that algorithm and block version accepts it. Nothing else in the header can make an insufficient proof pass.",
 I, "every proof hash, edge bits, height, version, scaling factor and total difficulty",
 "Tests check a few mined headers; an attacker chooses all header fields.",
 ["src/PoW/PoWValidator.cpp", "src/PoW/uint128.h"], [("difficulty comparison and algorithm choice", "src/PoW/PoWValidator.cpp"), ("128-bit scaled difficulty", "src/PoW/uint128.h")]),
("C04", "A header is accepted only as a valid successor of its parent",
 "A header is accepted on top of a parent exactly when it names that parent's hash, its height is one more, its timestamp is later than the parent's and at most the future limit ahead of the clock, its version is the scheduled one, its proof of work is accepted and it commits to the header history before it. Every rejection is reported as bad data and nothing else escapes.",
 I, "every pair of headers, every clock value, every network",
 "Tests use well-formed chains; acceptance has to be exact for headers crafted by a peer.",
 ["src/BlockChain/Validators/BlockHeaderValidator.cpp"], [("header validation", "src/BlockChain/Validators/BlockHeaderValidator.cpp")]),
("B01", "A transaction is accepted only when it is valid in itself",
 "A transaction passes validation only when its inputs and outputs balance against its kernels and offset, every output has a valid range proof, every kernel is signed over its own features, fee and lock height, its lists are sorted, nothing is spent, created or signed twice, no output is also an input, and it holds no coinbase output or kernel. Every transaction meeting all of that is accepted.",
 I, "every content of the input, output and kernel lists within the stated sizes",
 "Tests validate a few hand-made transactions; inflation or theft needs one crafted combination that slips through.",
 ["src/Core/Validation/TransactionValidator.cpp", "src/Core/Validation/TxBodyValidator.cpp", "include/Core/Validation/KernelSumValidator.h", "include/Core/Validation/KernelSignatureValidator.h"],
 [("transaction rules", "src/Core/Validation/TransactionValidator.cpp"), ("body rules", "src/Core/Validation/TxBodyValidator.cpp"), ("sums", "include/Core/Validation/KernelSumValidator.h"), ("signatures", "include/Core/Validation/KernelSignatureValidator.h")]),
("B02", "A block is self-consistent only when it mints exactly reward plus fees",
 "A block passes the self-consistency check only when its coinbase outputs and kernels balance to exactly the block reward plus the fees it carries, no kernel is locked beyond the block's height, and its body obeys the same sorting, uniqueness, cut-through, proof and signature rules as a transaction. A valid block is accepted and only a block that passed is marked as validated.",
 I, "every block content within the stated sizes and every height",
 "Tests validate a few mined blocks; a miner can craft any combination of outputs, kernels and fees.",
 ["src/BlockChain/Validators/BlockValidator.cpp", "src/Core/Validation/TxBodyValidator.cpp"], [("block self-consistency", "src/BlockChain/Validators/BlockValidator.cpp")]),
("B05", "No body above the consensus weight is accepted",
 "The weight of a body is the published combination of its input, output and kernel counts, and neither a block above the block limit nor a transaction above the limit minus the coinbase reserve passes validation.",
 I, "every count of inputs, outputs and kernels within the stated sizes",
 "Tests never build bodies near the limit; one oversized block splits the network.",
 ["src/Core/Validation/TxBodyValidator.cpp"], [("weight limit", "src/Core/Validation/TxBodyValidator.cpp")]),
("R01", "A range proof verdict does not depend on what was verified before",
 "A batch of range proofs is accepted exactly when every proof in it is valid for its own commitment, whatever batches were verified earlier on the same node.",
 IH, "every sequence of batches within the stated sizes and every proof content",
 "Tests verify each proof once; a stale cache entry shows only in a particular sequence.",
 ["src/Crypto/Bulletproofs.cpp", "src/Crypto/Bulletproofs.h"], [("verified-proof cache", "src/Crypto/Bulletproofs.cpp")]),
("S01", "Header bytes and headers correspond one to one",
 "Parsing any bytes as a block header either fails with a reported error or yields a header that writes exactly the consumed bytes back, and every header survives writing and reading for all packed proof-of-work sizes. The hash of a header covers exactly its proof, so two different byte strings never name the same accepted header content.",
 I, "all header byte strings, all proof nonces and edge bits, every length around the exact size", "Tests read back a few fixed headers; a lost bit shows only for particular values.",
 ["src/Core/Models/BlockHeader.cpp", "src/Core/Models/ProofOfWork.cpp"], [("header serialization", "src/Core/Models/BlockHeader.cpp"), ("nonce packing", "src/Core/Models/ProofOfWork.cpp")]),
("S02", "Transaction elements survive every protocol version unchanged",
 "Inputs, outputs, kernels, identifiers, bodies and transactions that are accepted from bytes have only known features and come back equal from every protocol version, and writing them in the version they came in restores the bytes. Malformed bytes are refused with a deserialization error, never a crash, a wrapped size or an oversized allocation.",
 I, "all byte strings of the stated lengths, all field values, all protocol versions", "Tests round-trip a few well-formed objects in one version.",
 ["src/Core/Models/TransactionKernel.cpp", "src/Core/Models/TransactionBody.cpp", "include/Core/Models/Fee.h"], [("kernel encoding", "src/Core/Models/TransactionKernel.cpp"), ("body encoding", "src/Core/Models/TransactionBody.cpp"), ("fee encoding", "include/Core/Models/Fee.h")]),
("S03", "No peer message body can crash the node or exhaust its memory",
 "Whatever bytes a peer sends as the body of any message, parsing either yields a message or reports a deserialization error, stays inside the received bytes and never allocates memory that the bytes do not back. A parsed message written again gives the bytes it was read from.",
 I, "every body of the stated lengths, with counts and lengths inside it unconstrained", "Tests contain no malformed messages; the failing ones need specific counts that wrap or exceed the body.",
 ["include/Core/Serialization/ByteBuffer.h", "include/PMMR/Common/Segment.h", "src/P2P/Messages/HandMessage.h", "src/P2P/Messages/PeerAddressesMessage.h"], [("bounds of the reader", "include/Core/Serialization/ByteBuffer.h"), ("segment counts", "include/PMMR/Common/Segment.h")]),
("M01", "MMR position arithmetic is exact for every position",
 "Node heights, parents, siblings, children, leaf and peak positions and the number of nodes computed for the Merkle mountain ranges agree with the postorder layout of a forest of perfect trees. This holds for every position and size, not only small ones, since all roots, proofs, prunings and segments are computed from it.",
 I, "every node of the stated leaf numbers and heights, every size within bounds", "A test samples some positions; errors show at particular carries of the binary representation.",
 ["src/PMMR/Common/Index.cpp", "src/PMMR/Common/MMRUtil.cpp", "include/PMMR/Common/LeafIndex.h"], [("index arithmetic", "src/PMMR/Common/Index.cpp"), ("peaks and node counts", "src/PMMR/Common/MMRUtil.cpp")]),
("M03", "The MMR files read what was written and undo what was not committed",
 "After any sequence of appends, rewinds, commits, rollbacks and restarts, record files and bitmap files hold exactly the logical content: what was appended and not rewound, with uncommitted changes gone after a rollback or restart. Reads beyond the end are refused, and a file replaced as a whole has its old or its new content whenever the process dies.",
 IH, "every sequence of the stated number of operations, every record content, every crash point and torn length", "Tests exercise no file operations at all; errors need particular orders of rewind, append and rollback.",
 ["src/Core/File/AppendOnlyFile.cpp", "include/Core/File/DataFile.h", "include/Core/File/BitmapFile.h", "src/Common/Util/FileUtil.cpp"], [("append-only file", "src/Core/File/AppendOnlyFile.cpp"), ("bitmap file", "include/Core/File/BitmapFile.h"), ("atomic replacement", "src/Common/Util/FileUtil.cpp")]),
("M05", "Header and kernel range roots follow from the appended leaves",
 "After any sequence of appends, rewinds, commits, rollbacks and restarts, the header and kernel ranges have at every size the root, node hashes and stored leaves that the definition of a Merkle mountain range gives for the leaves that remain. The genesis leaf is never lost.",
 IH, "every sequence of the stated number of operations, any leaf contents, every size", "Tests build no ranges; errors need rewinds across the committed end followed by new appends.",
 ["src/PMMR/HeaderMMRImpl.cpp", "src/PMMR/KernelMMR.cpp", "src/PMMR/Common/MMRHashUtil.cpp"], [("hash computation", "src/PMMR/Common/MMRHashUtil.cpp"), ("batching", "src/PMMR/HeaderMMRImpl.cpp")]),
("M06", "Pruned ranges behave like the full range with spent leaves removed",
 "A pruneable range gives the root, size, node hashes, unspent leaves and last leaf hashes of the full range, also when any fully spent subtrees have been compacted away and whatever is appended, spent, rewound, committed, rolled back or reloaded afterwards. Prune lists count exactly the removed nodes and leaves.",
 IH, "every spent set of the stated sizes and every following sequence of operations, any leaf contents", "Tests ask a prune list for a few shifts and never read a pruned range.",
 ["src/PMMR/Common/PruneableMMR.h", "src/PMMR/Common/PruneList.cpp", "src/PMMR/Common/LeafSet.h"], [("shifts", "src/PMMR/Common/PruneList.cpp"), ("pruneable range", "src/PMMR/Common/PruneableMMR.h")]),
("M07", "Blocks change the output set exactly and reorgs restore it",
 "A block is applied exactly when each input is unspent and mature and no output duplicates an unspent one, and afterwards the unspent set, positions and roots are those of the chain. Rolling back or rewinding to any earlier block restores the state of that block exactly, and header roots are accepted exactly when all of them match.",
 IH, "every chain of the stated length over a pool of commitments, any heights, every rewind target", "Tests apply no blocks; errors need particular spends across a rewind, such as an output created and spent within it.",
 ["src/PMMR/TxHashSetImpl.cpp", "src/PMMR/OutputPMMR.h", "src/PMMR/RangeProofPMMR.h"], [("apply and rewind", "src/PMMR/TxHashSetImpl.cpp"), ("output range", "src/PMMR/OutputPMMR.h")]),
("M08", "A downloaded state is accepted only if it is the one the headers commit to",
 "A TxHashSet received from a peer is accepted only if its sizes, roots and every kernel root of the header chain match and the sums, range proofs and kernel signatures hold. The outputs, range proofs and kernels it is then used with, and that those checks saw, are exactly the ones the header's roots commit to; an honest state is accepted.",
 I, "every content of the received files, unspent bits and prune list for the stated state, every verdict of the cryptographic checks", "Tests never load a foreign state; a forged file passes unless every byte is tied to a root.",
 ["src/PMMR/TxHashSetValidator.cpp", "src/PMMR/TxHashSetImpl.cpp"], [("state validation", "src/PMMR/TxHashSetValidator.cpp"), ("leaf data against leaf hashes", "src/PMMR/TxHashSetValidator.cpp")]),
("K01", "The chain with most work wins and every store follows it",
 "Whatever the order blocks and headers arrive in, the confirmed and the candidate chain are linked chains of valid blocks and headers from the genesis block, their work never decreases and reaches that of every valid block or header whose ancestors are known. The TxHashSet, output index, stored blocks and header MMR always match them; a refused block changes nothing and known bad blocks are never taken.",
 IH, "every tree of the stated size, every delivery order, any work per block, every single broken rule", "Tests add a handful of blocks in order; fork choice and rollback errors need a particular tree, order and invalid block.",
 ["src/BlockChain/Processors/BlockProcessor.cpp", "src/BlockChain/Processors/BlockHeaderProcessor.cpp", "src/BlockChain/Chain.cpp", "src/BlockChain/ChainState.cpp", "src/BlockChain/OrphanPool/OrphanPool.cpp"], [("reorgs", "src/BlockChain/Processors/BlockProcessor.cpp"), ("header forks", "src/BlockChain/Processors/BlockHeaderProcessor.cpp"), ("chain files", "src/BlockChain/Chain.cpp")]),
("D01", "The chain database returns what was stored and batches are all or nothing",
 "Every header, block, block sums, output position, spent position and version read from the chain database is the last one stored, byte for byte, also through the header cache and after reopening. A batch sees its own writes and becomes visible exactly when committed; a rollback leaves nothing; compaction deletes only blocks below the horizon, and a stored block comes back whole whatever was spent since.",
 IH, "every sequence of the stated operations, every stored value", "Tests never roll a database batch back or reread a block after its inputs were spent.",
 ["src/Database/BlockDBImpl.cpp", "src/Database/RocksDB/RocksDB.h", "include/Core/Models/OutputLocation.h", "include/Core/Models/SpentOutput.h"], [("database", "src/Database/BlockDBImpl.cpp"), ("transactions", "src/Database/RocksDB/RocksDB.h")]),
("T01", "The transaction pool admits only what the next block could hold, together",
 "A transaction enters the pool exactly when it is valid, pays the minimum fee, is past its lock heights, spends unspent outputs, creates new ones and conflicts with nothing already pooled. Pooled transactions always fit the chain and each other; a block evicts exactly those it conflicts with; relayed aggregates hold every relayable transaction once. A stemmed transaction expires when its embargo is over and not before, and lookups by kernel and short id find exactly the right transactions.",
 IH, "every fee, shift, lock height and block height, every history of the stated length over transactions that share coins", "Tests submit one transaction at a time and never two that spend the same coin, a block in between or a clock.",
 ["src/TxPool/TransactionPoolImpl.cpp", "src/TxPool/Pool.cpp", "src/TxPool/ValidTransactionFinder.cpp", "include/Core/Util/TransactionUtil.h"], [("admission", "src/TxPool/TransactionPoolImpl.cpp"), ("reconciliation", "src/TxPool/Pool.cpp"), ("joint validity", "src/TxPool/ValidTransactionFinder.cpp")]),
("T02", "A compact block rebuilds into exactly the announced block, or not at all",
 "A compact block carries the block's coinbase parts and one short id for every other kernel. When the pool holds the block's transactions, in any grouping and order, it is rebuilt into exactly the original inputs, outputs and kernels, cut through and sorted; when any of them is missing nothing is rebuilt.",
 IH, "every subset of transactions in block and pool within the stated size", "Tests do not hydrate compact blocks at all.",
 ["src/BlockChain/BlockHydrator.cpp", "src/BlockChain/CompactBlockFactory.cpp", "src/TxPool/Pool.cpp"], [("hydration", "src/BlockChain/BlockHydrator.cpp"), ("creation", "src/BlockChain/CompactBlockFactory.cpp")]),
("C06", "A proof of work is accepted exactly when its edges are one cycle",
 "Each of the five Cuckoo Cycle verifiers accepts a proof exactly when its edge numbers ascend within the graph and the edges they name form one single cycle of the full length by that graph's own rules; anything else is rejected, and verification always ends. The key comes from the header's pre-proof-of-work bytes.",
 I, "every edge set, and every header, within the stated bounds", "Tests verify one or two real proofs; forged or degenerate edge sets are never tried.",
 ["src/PoW/Cuckatoo.cpp", "src/PoW/Cuckaroo.cpp", "src/PoW/Cuckarood.cpp", "src/PoW/Cuckaroom.cpp", "src/PoW/Cuckarooz.cpp", "src/PoW/Common.h"], [("verification", "src/PoW/Cuckarood.cpp"), ("primary graph", "src/PoW/Cuckatoo.cpp")]),
("W01", "A send spends only spendable coins and loses no value", "A send spends coins of the wallet that are confirmed, mature, unlocked and, where the user chose some, among those chosen; each once, and all of them where all are to be spent. The coins spent equal the amount, the fee for the weight and the change; the change belongs to the wallet, exactly the coins spent become locked, and the signing key kept is the one the slate's public key stands for. A send is refused only without the funds, then nothing changes, and the fee is as estimated.", [I, H], "every value of every coin and every amount within the bounds, every recorded state, height and kind of a coin", "Tests send round amounts from one freshly mined coin, never a sum that wraps, a locked coin next to a free one or a fee that exceeds the change.", ["src/Wallet/SlateBuilder/CoinSelection.cpp", "src/Wallet/SlateBuilder/SendSlateBuilder.cpp", "src/Wallet/WalletImpl.cpp", "src/Wallet/SlateBuilder/OutputBuilder.h"], [("coin selection", "src/Wallet/SlateBuilder/CoinSelection.cpp"), ("building and recording", "src/Wallet/SlateBuilder/SendSlateBuilder.cpp"), ("available coins", "src/Wallet/WalletImpl.cpp")]),
("W02", "A payment is signed once, only for the agreed terms, and received once", "The wallet that receives a payment adds one output worth exactly the amount, owns it, and replies under the same terms; the same payment is received at most once, also by a wallet that sends to itself. Whatever comes back, the sender signs only a valid transaction with the agreed fee and kernel, his own inputs and his change; a refused reply changes nothing, a nonce signs at most once, and a canceled payment is never signed. Payment proofs hold only for the agreed receiver, amount, excess and sender.", [I, H], "every amount and coin value within the bounds, every change of the reply within the listed ways, every history of up to four steps", "Tests exchange one untouched slate of a round amount; no test returns a changed reply, a second reply, or a reply to a payment canceled in between.", ["src/Wallet/SlateBuilder/SendSlateBuilder.cpp", "src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp", "src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp", "src/Wallet/SlateBuilder/TransactionBuilder.h", "src/Wallet/SlateBuilder/SignatureUtil.h"], [("receiving", "src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp"), ("finalizing", "src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp")]),
("W03", "Over any history the wallet follows the chain and no coin pays twice", "A coin is locked only while a pending send spends it, is held while one does, and pays at most one pending send; outputs are awaited only while their payment is pending, and the balance adds up. A payment is canceled only while pending and unconfirmed: its inputs become free, its outputs are dropped, nothing else changes. After a refresh coins are confirmed exactly when they are on the chain, also after reorgs, and payments become sent or received when their output appears.", [I, IH], "every history of the bounded length over sending, receiving, finalizing, canceling, blocks, undone blocks and refreshes", "Tests walk one path from sending to confirmation; the bookkeeping must hold for every order of steps, with cancels, reorgs and a second pending payment in between.", ["src/Wallet/WalletRefresher.cpp", "src/Wallet/CancelTx.cpp", "src/Wallet/WalletImpl.cpp", "src/Wallet/Wallet.cpp"], [("refresh", "src/Wallet/WalletRefresher.cpp"), ("cancel", "src/Wallet/CancelTx.cpp"), ("balance", "src/Wallet/Wallet.cpp")]),
("W04", "A wallet finds exactly its own outputs on the chain, with the right keys", "Searching the chain, the wallet recognises every output made from its seed, of either proof kind, and recovers the amount, key path and key that opens it; outputs of other seeds are left alone. Every own unspent output the wallet does not know yet is recorded exactly once, with one received transaction of its amount, whatever the pages in which the node delivers the outputs; known outputs keep their record. The next search goes on behind the last leaf.", [I, IH], "every amount, height, leaf index and key path; every chain of the bounded length, page size and starting point", "Tests never restore: recovery depends on proof kind, height of the block, page boundaries and outputs the wallet already knows.", ["src/Wallet/OutputRestorer.cpp", "src/Wallet/WalletRefresher.cpp", "src/Wallet/Keychain/KeyChain.cpp", "src/Wallet/Keychain/KeyGenerator.cpp"], [("search", "src/Wallet/OutputRestorer.cpp"), ("recording", "src/Wallet/WalletRefresher.cpp"), ("rewinding", "src/Wallet/Keychain/KeyChain.cpp")]),
("S05", "Slates and the wallet's records come back exactly as they were stored", "A slate, in binary and in JSON, is read back with every amount, lock, feature, participant, signature, input, output and payment proof it had, and equals only slates with the same content. Outputs, transactions, signing contexts, metadata, encrypted seeds, slatepack metadata and key paths the wallet stores are read back unchanged. Malformed bytes are refused, and unknown features are never taken for known ones.", [I], "every value of every field, every combination of optional parts and every malformed text within the bounds", "Tests read back a handful of slates; optional fields, the highest values and damaged input are what differs.", ["include/Wallet/Models/Slate/Slate.h", "include/Wallet/Models/Slate/SlateSignature.h", "include/Wallet/Models/Slate/SlateCommitment.h", "include/Wallet/KeyChainPath.h", "src/Wallet/Models/Slate/Slate.cpp"], [("slates", "src/Wallet/Models/Slate/Slate.cpp"), ("stored outputs", "include/Wallet/WalletDB/Models/OutputDataEntity.h")]),
("W05", "The seed comes back only from its words, its password or its session", "A wallet seed is recovered exactly from its words, and a list of words with a wrong number, an unknown word or a wrong checksum is refused. An encrypted seed opens with its password to the same seed and never to anything that is not authenticated by that password, also after the password was changed; records come back or are reported as damaged. A session token gives the seed only while its session is open; a wrong password, another session, another key or another length gives nothing.", [I, IH], "every seed, password, token and stored text within the bounds; every order of logging in and out", "Tests use one seed and one password; a wrong password, damaged records, foreign words and closed sessions are the cases that matter.", ["src/Wallet/Keychain/Mnemonic.cpp", "src/Wallet/Keychain/SeedEncrypter.cpp", "src/Wallet/WalletDB/WalletEncryptionUtil.cpp", "src/Wallet/SessionManager.cpp", "include/Wallet/SessionToken.h"], [("words", "src/Wallet/Keychain/Mnemonic.cpp"), ("encryption", "src/Wallet/Keychain/SeedEncrypter.cpp"), ("sessions", "src/Wallet/SessionManager.cpp")]),
]
NA = {}
