#!/usr/bin/env python3
# writes MANIFEST.json from the list of claimed checks
import json,os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
MIR="over the type-checked MIR of /repo"
FL=("interprocedural dataflow "+MIR+" (control-flow supergraph, origin and escape facts)")
TRUST=" Trusts rustc's MIR and the written contracts of external functions (std, mio, ciphers); see DESIGN.md."
AI="abstract interpretation "+MIR+" (value numbering with intervals and finite tables)"
C={
"K01":(AI+": overflow, bounds, panics","Every overflow, bounds and panic site reachable from the mechanism's operations is shown unreachable for all seeds, keys and ciphertext bytes, at all three widths."+TRUST),
"K02":(AI+": structure of the decapsulated secret","The value number of the shared secret is inspected: what it hashes, what it selects between and on which comparison."+TRUST),
"K03":(AI+": equality of both secrets","The value numbers of the two secrets are equal once the recovered message is identified with the sent one; fresh and decoded keys have equal value numbers."+TRUST),
"K04":(AI+": taint on branches and indices","No branch condition, loop bound or index evaluated by generation, encapsulation or decapsulation carries secret taint that does not pass through public bytes."+TRUST),
"K05":(AI+": round trips","encode(decode(bytes)) yields the identical value numbers; decoded secret coefficients have the same residue as linear forms modulo q."+TRUST),
"K06":(AI+": provenance of matrix and noise","Every matrix entry, secret and error coefficient is traced to the streams it is drawn from; streams and their seeds are compared."+TRUST),
"K07":(AI+", read as linear forms modulo q: ring equations","The values of the three operations are read as sums of multiples of stream bits, received coefficients and products, an exact abstraction; transforms, inverse transforms, products and what is left over are compared with the equations coefficient by coefficient, and every rounding is tabulated over its operand's interval."+TRUST),
"K08":(AI+", read as integer sums of stream bits: noise","Every noise coefficient left over by the equations is a sum of single stream bits; the number of bits added and subtracted and their positions are counted."+TRUST),
"U01":("lock and borrow analysis "+MIR,"Every acquisition of a lock or dynamic borrow reachable from a command or worker is checked against the guards alive there, on all paths, callees included."+TRUST),
"U02":("interprocedural dataflow "+MIR+": worker loop exits","All exits of the worker loop are enumerated; each must be taken only on a closed channel or a terminate command."+TRUST),
"U03":("typestate and ownership analysis "+MIR+": senders alive at joins","At every join of a worker, on all paths, no sender of its channel is alive in the frames waiting."+TRUST),
"U04":(FL+": frame length guard and first-datagram contents","Guards and buffer provenance on every path from receive to processing and from dialling to sending."+TRUST),
"U05":(FL+": provenance of seeds","Every seed argument is traced back to a whole-buffer fill by the thread-local generator on all paths."+TRUST),
"T01":("loop analysis "+MIR+": running flag dominates every wait","Every cycle through a blocking wait tests the running flag; every wait has a finite timeout."+TRUST),
"T02":("loop and error-class analysis "+MIR+": accept loops","All paths from a listener event to the next poll leave the accept loop through a failed accept."+TRUST),
"T03":("panic reachability "+MIR+": failures of network operations","No panic, unwrap or expect is reachable from the failure outcome of a network call without reporting; one known finding."+TRUST),
"T04":("reachability analysis "+MIR+": ends of the main loops","On every path from a wait the end of the loop lies behind a cleared flag, an interruption or the waker's token, for all results of network calls."+TRUST),
"U06":(FL+": destination of local commands and dials","Values of keys, handles and messages are traced to the command's fields on every path; presence and number of sends, inserts and reports follow from reachability."+TRUST),
"U07":(FL+": destination of datagrams and bookkeeping of dials","Keys, frames, addresses, channels and handshake states are traced from the receive to the worker on every path."+TRUST),
"C03":(FL+": from decoded command to node, and order of shutdown","The argument of every Node::command is traced to its decode; presence, uniqueness and order of commands and joins follow from reachability."+TRUST),
"E01":(FL+": events from report to reference","Every return of the reference is traced to the receive it follows, every reporting function to its send, and all channels for events are enumerated."+TRUST),
"D01":("typestate analysis "+MIR+": read, insert, flush, use","On every path a returned key derives from the stored seed or from a fresh one inserted and flushed before."+TRUST),
"C01":("type and constructor dataflow "+MIR+": client and listener codecs","Types at both serialization calls and the mapping of every subcommand are compared."+TRUST),
"C02":("dataflow "+MIR+": bounded read dominates decode","Every decode is dominated by timeouts and a byte limit on the accepted stream."+TRUST),
"N01":(AI+": counters and nonce bytes","Every transport and handshake operation is followed from a symbolic state; the nonce handed to the cipher and the successor state are compared with the schedule, over all counter values and outcomes."+TRUST),
"N02":(AI+": arguments and verdict of the AEAD","Success of every decryption implies the verdict of one AEAD call whose key, nonce, associated data and ciphertext are the given ones; boundaries of the tag are checked over a range of lengths."+TRUST),
"N03":("trait and signature queries on the type-checked program","The compiler's trait solver is asked about every type that holds a handshake key, and the signature and call graph of every function open to other crates are checked for ways to use a state twice, for all client programs."+TRUST),
"N04":(AI+": transcript hash","The value number of the transcript after mixing and after handshake encryption or decryption is compared with the definition over a range of lengths."+TRUST),
"N05":(AI+": key schedule","The value numbers of chaining key, cipher key, transcript and transport keys after each mixing step are compared with the slices of one HKDF output."+TRUST),
"N06":(AI+": panics on ill-sized buffers","No panic site is reachable from decryption for any buffer content over a range of lengths around the tag."+TRUST),
"N07":(AI+": rotor calls","The condition of every rotor call and its place relative to the cipher call are compared with the schedule on both sides and both outcomes."+TRUST),
"S01":(AI+": both parties' states","The four steps are followed for both parties with one party's messages handed to the other; value numbers of transcript, keys, nonces, payloads and static keys at the end are compared."+TRUST),
"S02":(AI+": verification conditions and transcript of every step","Success of every step implies the verdict of one AEAD call per encrypted field, in order, under the state reached before; clear bytes are found in the transcript of the next verification."+TRUST),
"S03":(AI+": provenance of the key schedule","The chain of mixed secrets behind each encryption and the final keys is listed and compared with the seven secrets, each whole and unconditional."+TRUST),
"S04":(AI+": condition of success","Success of the initiator's step is shown to imply equality of the whole dialled identity with the identity of the presented key that is stored."+TRUST),
"S05":(AI+": panics on hostile bytes","No panic, overflow or bounds site is reachable from the handshake steps, deserialization and identity parsing for any bytes; one known finding."+TRUST),
"S06":(AI+": consistency of keys","The value numbers of every field of a public key are compared over all ways of making one."+TRUST),
"R01":(AI+": encoded and decoded bytes","The bytes of every encoding and the parts given to every decoding are compared with the layout over combinations of part types and lengths."+TRUST),
"R02":(AI+": accepting condition of verification","The condition under which verification accepts is compared with equality of every byte of the recomputed coordinate, scalars as polynomials and points as linear combinations; one known finding."+TRUST),
"R03":(AI+": round trip of signatures","The scalar and coordinate of a decoded signature are compared with the encoded one's for every curve; one known finding."+TRUST),
"R04":(AI+": wrappers against the group","Results of every wrapper are compared with the operation of the underlying group or field, constants and encodings included."+TRUST),
"S08":("trait and signature queries on the type-checked program, value numbering of key generation","The compiler's trait solver is asked about every type that holds secret key material and every formatting and serialization trait; functions open to other crates are checked for text made of secrets; what a public key is made of is followed from the seed."+TRUST),
"S07":(AI+": identity text and hash input","The hash input of the identity is compared with the whole compressed key; parsing after printing yields the same value numbers and each acceptance condition is checked."+TRUST),
}
NA={
"X01":"a probability over the seeds: it needs the distribution of sums of products of noise, which is a computation about the scheme and not a fact of the program text; the equations and the noise it rests on are K07 and K08",
"X02":"termination and uniformity of rejection sampling are probabilistic facts of the stream, not of the program text",
}
TODO="the analysis of this part of the code is not built yet"
m=dict(version=1,setup_cmd="./export.sh",checks=[],not_applicable=[],notes="All checks analyse MIR dumped by a rustc driver from /repo's current tree; the code under test is never run.")
for p in props:
    if p in C:
        t,n=C[p]
        m["checks"].append(dict(property=p,quick_cmd=f"./check.sh {p} quick",thorough_cmd=f"./check.sh {p} thorough",technique=t,level="other",level_note=n))
    else: m["not_applicable"].append(dict(property=p,reason=NA.get(p,TODO)))
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
print(len(m["checks"]),len(m["not_applicable"]))
