#!/usr/bin/env python3
# Writes /verif/DESIGN.md: tools/design_head.md, one entry per property (properties.jsonl + the notes below + the counts of
# the last runs in evidence/), the findings (known_findings.json) and the planted bugs (seeded/*/meta.json, tools/seed_history.json).
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = {}
def note(id, decided, oracle, reach):
    N[id] = (decided, oracle, reach)

note("C01", "All payloads up to the length bound over {00,01,7f,80,ff,…} and every one- and two-byte payload; shapes with leading/trailing zero runs up to 85 bytes; every version byte; every one-character edit (substitution by every alphabet and foreign character incl. the non-ASCII rune that truncates to the same byte, deletion, insertion, transposition); every checksum byte changed; all short texts.",
     "`ref` base conversion on big.Int and SHA-256d.", "corruptions that only one position/character pair exposes, leading-zero arithmetic")
note("C02", "Every program length 0..42 × version 0..31 × several human-readable parts, encode and decode; every structurally invalid text built with a *correct* checksum (padding, length, version, bech32m constant, mixed case, separators); all single and double substitutions (triple/quadruple thorough on short texts). `checksums`: every checksum value within a window of two short texts (thorough: all 2^30), for version 0 and later versions.",
     "`ref` BIP173 written from the specification.", "the checksum's guarantee quantifies over all pairs of errors")
note("C03", "4 address kinds × printing net × parsing net × boundary hashes (every count of leading zeros); every version byte and payload length; every one-character edit; every standard locking script and its one-change neighbours (`push-forms`: the same data pushed with another opcode).",
     "`ref` address grammar: which texts are addresses, of which kind, and which script each locks to.", "cross-network and cross-kind confusions")
note("C04", "All write sequences over all types with boundary values (fresh and reused buffers), read back with the same or different sequence; all read sequences over all truncations; every CompactSize width at both ends; all short contents × all reads.",
     "byte-by-byte model of the wire encoding plus a model of the read position after failed reads.", "histories: stale data after reuse, position after a failed read")
note("C05", "Products of version, lock time, witness presence, script lengths, sequences, amounts, counts (both sides of 252/253/65535/65536), witness stack shapes; parse→serialize→parse; a receiver reused for a second parse; every truncation. `lone-witness`: of n inputs exactly one, at every position, has a witness.",
     "`ref` serializer for both formats; refusal of anything the format does not define.", "count boundaries, receiver reuse")
note("C06", "Every single and every pair of field changes on each transaction shape with an id query before/between/after; the same for parsed transactions, and around signing.",
     "`ref` id = SHA-256d of the witness-stripped serialization; ids of two states equal iff their non-witness data are equal.", "cached ids surviving a mutation is a history property")
note("C07", "All transactions with ≤3 inputs/outputs over a small alphabet × index × hash type × both algorithms; all 256 hash-type bytes; all histories of hash queries mixed with AddInput/AddOutput/SetTxIn/SetVersion/SetLockTime up to the depth. `foreign-redeem`: a redeem script attached to an input whose output does not commit to it must not change the hash.",
     "`ref` legacy and BIP143 digests.", "caches filled by one query and read by the next")
note("C08", "All vectors of input kinds up to length 3 (7 kinds) × hash types × signing order; mixed hash types; m-of-n with every sufficient subset; staged signing with re-parse; embedded; all key shapes; through the TxBuilder. `field-values`: version, lock time and every sequence number boundary per input, signed and verified.",
     "Verify succeeds, and every signature is checked by `ref` against the `ref` digest.", "kind-vector × order interactions (an input signed before another is added)")
note("C09", "Each authorised spend × each field change (committed → must fail, uncommitted → must still pass) × hash types; substituted signatures/keys/redeem scripts between inputs; insufficient key subsets; every unlocking script up to the length bound; every bit of every signature and witness item. `attached-redeem`/`redeem-scripts`: every (locking script, attached redeem script) pair; `many-inputs`: one bad input at every position among up to dozens of good ones.",
     "`ref` verdict: the change touches data the hash type commits to, or not.", "adversarial scripts, caches of earlier verdicts")
note("C10", "All programs up to the length bound over the whole opcode table and boundary pushes; programs with operands; conditional structure (all trees of IF/NOTIF/ELSE/ENDIF up to the size) ; every byte as an opcode; size/count/stack limits on both sides; alias freedom of stack items.",
     "`ref` interpreter written from the rules (success/failure and final stack).", "the state space of programs; aliasing of stack items shows only in 3+ step programs")
note("C11", "All n ≤ 4 (5) × m × all assignments of {each key, wrong key, empty, garbage} to signature slots, decided under an abstract verifier that records which pairs it was asked for; malformed counts; large n; the same scripts with real keys in transactions.",
     "the definition: an order-preserving injection from signatures to keys.", "the relation quantifies over all assignments")
note("C12", "Every byte string up to 3 bytes (first-byte blocks) and boundary strings to 9 bytes; every |n| ≤ 2^17 (2^24) and ±300 round every power of two.", "integer arithmetic on big.Int.", "whole-range exactness, minimality")
note("C13", "All builder call sequences to the depth over all opcodes and boundary pushes (0,1,75,76,255,256,…, 65536+); every truncation; all raw scripts to length 3; text form. Text with every white-space separator; builders reused after Reset and after a failed Load; every choice of separators in longer texts; quoted text of all short strings, hex or not.", "`ref` tokenizer; concatenation of `ref` pushes.", "length-boundary combinations, reads past the end")
note("C14", "All builder configurations of 0..3 coins/payments over boundary amounts × change × fee/fee-rate/max-fee × data output × one/two/three groups; call orders incl. building twice and after a failed build; signing. `near-outpoints`: coins whose outpoints differ in one bit or byte of id or index are different coins, equal ones are duplicates.",
     "exact integer money model: outputs = payments + change + fee, no wrap, no misdirected change; a refused build leaves no transaction.", "2^63/2^64 wrap-arounds and order of calls")
note("C15", "All shapes of C05/C08/C14 with signing; Size/BaseSize/WitnessSize/Weight/Vsize compared with the serialization; the estimate before signing compared with the size after. `many-inputs`: input and output counts on both sides of 252/253.", "lengths of `ref` serializations; the known estimate formula (see findings).", "witness/base split under every shape")
note("C16", "All seeds of the alphabet × all paths to the depth × private/public × string round trip at each step; every index bit; path texts over the path alphabet; every field and byte of serialized keys changed and re-checksummed; depth 255.", "`ref` BIP32 (HMAC-SHA512 from the standard library; big.Int group).", "commutation over all paths; leading-zero keys")
note("C17", "Five sizes × boundary entropies × each flipped bit; all 2048 last words; every one-word substitution for chosen mnemonics; last two words (thorough: all pairs); word counts; three word lists incl. their integrity. `seed-texts-*`: seeds of mnemonics and passwords with odd white space, case and non-ASCII text.", "`ref` BIP39 bit arithmetic over the word lists (SHA-256 of the published lists).", "exact checksum acceptance is a statement about all words")
note("C18", "crypto/rand.Reader replaced by chosen byte streams whose every Read answer (full, short, error) is a choice; clock frozen; each generator and signer consuming randomness.", "outputs are a function of the stream; with a failing source no secret comes out; distinct streams give distinct secrets; never a clock or math/rand source.", "source failure and short reads at each position")
note("C19", "On tiny curves installed in the running code: every key × hash × (r,s); signing for every key × hash; on secp256k1: boundary keys × hashes, every bit flip, all malformed DER.", "`ref` ECDSA on affine big.Int arithmetic, RFC 6979 nonce, strict DER.", "exactness of verification on all (r,s) cannot be sampled on a 256-bit curve")
note("C20", "As C19 for Schnorr (BIP-schnorr draft the library implements): every key × message class × (r,s); lengths 0..130; bit flips. `message-lengths`: each message length around the hash block sizes, each byte flipped.", "`ref` Schnorr equation with the Jacobi condition.", "as C19")
note("C21", "On six tiny curves: all pairs of points (Add, Double), all scalars (mult), all encodings with all prefixes, on-curve for all (x,y); on secp256k1 boundary multiples, prefixes, lengths, bit flips.", "`ref` affine group law.", "special cases (P+P, P+(−P), infinity) over the whole group")
note("C22", "On two tiny curves: all key pairs × hashes; every interleaving of the two parties' phases; every altered message; secp256k1 boundary keys. Interleavings also close a party at every point.", "`ref` ECDSA under the joint key; both parties' results equal.", "phase interleavings and altered messages")
note("C23", "As C22 for the Schnorr aggregate signatures, two and three parties, every permutation and repetition. `message-lengths`: every message length, and a change in the last byte is refused. `interleavings` also closes parties at every point.", "`ref` Schnorr verification under the joint key.", "as C22")
note("C24", "As C22 with an adaptor: every key pair × secret × hash; phases interleaved; the presignature is no signature; completing gives one, and the two reveal exactly the secret. Interleavings also close a party at every point.", "`ref` arithmetic mod n.", "extraction must be exact for every secret, incl. those where low-S flips")
note("C25", "All prime pairs up to the bound offered to key generation; for each small key all plaintexts, all pairs, all randomizers; sequences of operations; out-of-range values both sides; real key sizes with boundary plaintexts.", "integers mod N.", "whole-range homomorphism")
note("C26", "All list lengths × leaf patterns {distinct, duplicated} × every leaf × every other leaf's proof; every byte of a proof/path/root changed; structural changes.", "`ref` Merkle tree built from the definition.", "soundness quantifies over all other proofs")
note("C27", "A net.Conn whose every Read/Write answer is a choice: all message sequences × one/two split points, error/EOF/short at every byte, every header and payload bit corrupted, announced sizes, deadlines, write faults.", "`ref` framing; a reader model that says which messages precede the first bad byte.", "every way bytes may arrive")
note("C28", "All message kinds × boundary fields × counts at each limit; batches; truncations; count fields from the adversarial alphabet; decoding into a used message.", "`ref` encoder/decoder of each message.", "count/limit combinations")
note("C29", "Stateless exploration of the real Peer/Conn: the transport's Read/Write calls are gates held by the controller; every order of releasing gates (deviation bound from a default schedule in quick, all schedules in thorough) with senders, a reader, callbacks that send or close, and a closer.", "a model of frames on the wire: complete, uninterleaved, in per-sender order; sends complete while the reader is blocked; close releases everybody.", "interleavings")
note("C30", "All ordered pairs of 64 operations on one shared world under the race detector, both sequentially twice and in two goroutines; the first use of the library (package-level state) by two goroutines in a fresh process.", "results equal to those of a private world; no race reported. See 'Schedules in C30' below.", "pairs of operations sharing lazily filled state")
note("C31", "All short inputs for 46 parsers; every truncation and one-byte change of valid encodings; every count field replaced by every adversarial size; allocations measured against the input's length; each in a supervised child, followed by every accessor; executions of every short loop of instructions, repeated, on small and big items.", "no panic, no hang, memory ≤ a·len+b.", "adversarial counts")
note("C32", "Every length × contents one-shot; every cut of RIPEMD-160 input, all write/sum/reset histories, two digests interleaved, long messages around 2^29 bytes (thorough); PBKDF2 for lengths, iterations and blocks.", "independent RIPEMD-160 and PBKDF2; standard library SHA.", "streaming state")
note("C33", "All 4 methods × reply shapes × statuses × truncation at every byte × connection failures, against a loopback server whose answer is the choice; concurrent calls.", "what the reply says: the result, or an error.", "reply shapes")
note("C34", "Every table × every code, listed and not × argument lists × every way of printing; all histories (to a depth) of making an error, changing its fields, changing a table's entry and printing; depths of call; and, for each documented failure of transactions, scripts, addresses, the builder and the engine, the positions, counts and amounts it can name.", "the tables as they were at start-up, formatted; independence is checked by comparing every error made so far after every step; the values expected in a message come from the failing input.", "errors of unknown codes, repeated errors, printing other than Error()")
note("C35", "All pairs of refused calls (wrong index, wrong key, wrong redeem script, too few signatures, parses cut at each byte) at every stage of building and signing over transaction shapes with witness and without; all sets of builder faults, put right afterwards; messages filled to their limit; streams; every sequence of stack operations; parties that are given bad values first.", "the observable state (serializations, ids, hashes for signing, verification, depth and items) before and after, and a run of the same history without the refused calls.", "everything done after an error")
note("C36", "All programs over the engine's alphabet to a length, alone, after operand prefixes and split into unlocking and locking script; all push lengths and forms; all histories of verifications with each setting.", "the reference interpreter stopped after each instruction (its stack), and the disassembly of the rest; for reuse, a new engine.", "traces of anything but straight-line programs; engines used twice")
note("C37", "Transactions of every mix of coin kinds, before and after signing, boundary amounts, versions and lock times; inventory types at every 32-bit boundary.", "the fields of the transaction and of the reference transaction (`ref`), the disassembly of its scripts, sizes counted from the serialization.", "any content of the text: the tests only call it")

def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), "", "## The properties", ""]
    for p in props:
        i = p["id"]; d, o, r = N[i]
        out += ["### %s %s" % (i, p["title"]), "",
                "*Anchors:* %s." % ", ".join("`%s`" % f for f in p["anchors"]["files"]),
                "*Enumerated and checked:* " + d, "*Oracle:* " + o, "*Beyond the tests:* " + r + ("." if not r.endswith(".") else "")]
        f = os.path.join(HERE, "evidence", i + ".json")
        c = COST.get(i)
        if c: out.append("*Cost (quick tier):* " + c)
        out.append("")
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    k = kf["findings"]
    out += ["## Genuine defects that are recorded, not repaired", ""]
    for e in k:
        if e["status"] == "known": out.append("* %s `%s`: %s" % (e["property"], e["key"], e["what"]))
    out += ["", "## Genuine defects repaired in /repo (fix: commits)", ""]
    for e in kf["fixed"]:
        out.append("* " + (e if isinstance(e, str) else json.dumps(e)))
    hist = json.load(open(os.path.join(HERE, "tools", "seed_history.json")))
    out += ["", "## Planted bugs", "", "Each lies in `seeded/<id>/`. *first run* is what the check said the first time it met the change;",
            "where it missed, the last column says what was added to the check.", "", "| id | property | what it breaks | first run | strengthened by |", "|---|---|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        i = f.split("/")[-2]; m = json.load(open(f)); h = hist.get(i, {})
        out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " "), h.get("first", "caught"), h.get("added", "")))
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")

COST = {}
cf = os.path.join(HERE, "tools", "costs.json")
if os.path.exists(cf): COST = json.load(open(cf))
main()
