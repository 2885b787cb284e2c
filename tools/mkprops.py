#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are reviewed in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})
L = "src/libeopsi/"

p("C01", "Delegated intersection equals the plain intersection",
  "When two clients have outsourced their data to the cloud and one of them requests the computation from the other, the intersection the requesting client ends up with is exactly the set of elements common to both: no common element is missing, nothing else is in it, and each element appears once. This holds for any element values of the declared bit width (zero and repeated input elements included), any sizes that fit the hash table up to completely full buckets, any table dimensions, any of the library's hash algorithms, any party names and any client secrets of any length.",
  ["inputs", "configurations"],
  "All pairs of non-empty data sets that fit the buckets; all table lengths, bucket sizes, polynomial degrees >= 2*bucket size+1, prime fields leaving enough padding (>= 44 bits) to make chance roots negligible; all secrets, ids and hash algorithms.",
  "Only eopsisimul looks at the intersection: 1024 random 32-bit elements, two fixed 3-byte secrets, one field size; its only stable case has an empty intersection.",
  [L+"eopsiclient.cpp", L+"eopsiserver.cpp", L+"eopsiparty.cpp", L+"zzppoly.cpp", L+"hashbuckets.hpp", L+"murmurhash3.cpp", L+"zzprf.cpp", L+"zzpprf.cpp", L+"ntlmiss.cpp"],
  [("pad, hash, conceal, evaluate, mask", "EOPSIClient::setRawData/blind"), ("combine with key-derived polynomials", "EOPSIParty::computeTOrQ"), ("subtract, interpolate, factor, filter", "EOPSIClient::intersect, ZZpPolynomials::findIntersection")],
  ["EOPSIClient::getIntersection"])

p("C02", "Every run in a history of protocol runs is exact",
  "In any sequence of outsourcing, re-outsourcing (a client with the same name replacing its data) and computation requests among any number of clients, with requester and responder roles repeated and swapped freely, each completed request gives its requester exactly the intersection of the data the two clients have currently outsourced. A request changes no other client's result, and an earlier run never influences, corrupts or crashes a later one. This also holds with several clouds that are given everybody's data, with a cloud replaced by a new one of its name, when groups of clients with different fields and degrees share a cloud that is given the group's field and degree before its turn, and when all clients share one hash algorithm object.",
  ["histories"],
  "All finite sequences of outsource / re-outsource / request operations over 2 to 5 clients and one to three clouds, also with the two shares arriving in either order and requests arriving while another one is being served, in which both parties of a request have outsourced data with common parameters.",
  "Every existing program performs a single request and exits; no test makes a second request, swaps roles or replaces stored data.",
  [L+"eopsiclient.cpp", L+"eopsiserver.cpp", L+"eopsiparty.cpp"],
  [("pending shares of a computation", "EOPSIClient::receive (q, t)"), ("latest message per client", "EOPSIServer::receive (storedData)")],
  ["EOPSIClient::getIntersection of every client after every step"],
  [{"name": "q, t", "meaning": "the two shares a requester waits for", "where": L+"eopsiclient.h"}, {"name": "storedData", "meaning": "outsourced data per client name", "where": L+"eopsiserver.h"}])

p("C03", "Only authorised, well-formed messages are acted on",
  "A party acts on a message only if the sender is a party it has authenticated, is not itself, has the role allowed to send that type of message to a party of this role, and the names claimed in the message match: clients accept computation requests and polynomials only from clients and computation outputs only from servers, servers accept outsourced data and computation requests only from clients, and null messages are never sent. Everything else, including unknown senders, missing or truncated content, and requests naming a client that is unknown or has outsourced nothing, is refused with a protocol exception (never a crash or process exit), leaves the party's stored data and results as they were, and does not prevent later valid runs from giving exact results.",
  ["inputs", "histories"],
  "All messages (sender name known or not, any sender role, any message type incl. undefined values, any claimed name, any payload truncation) delivered in any order, interleaved with valid runs.",
  "The test programs only ever send the four valid messages of one run; no rejection path is executed.",
  [L+"eopsiclient.cpp", L+"eopsiserver.cpp", L+"eopsiparty.cpp", L+"eopsimsg.cpp", L+"protocolex.h"],
  [("role/type matrix", "EOPSIClient::isAuthorised, EOPSIServer::isAuthorised"), ("claimed id check", "receive() of client and server"), ("null check", "EOPSIParty::send"), ("authenticated parties", "EOPSIParty::authenticate/hasAuthenticated")],
  ["exceptions thrown by send/receive", "isAuthorised results", "getIntersection afterwards"])

p("C04", "Outsourced data hides the set behind masks and a fixed shape",
  "The data a client hands to the cloud always consists of one value per bucket and evaluation point, whatever and however many elements the set has, and each value is the evaluation of that bucket's polynomial (whose roots are exactly the bucket's padded elements and fillers) plus a mask. The masks depend only on the client's secret, the position and the parameters (not on the data or the requested number of threads), are spread over the whole field, never repeat between positions, and differ everywhere under a different secret.",
  ["inputs", "configurations"],
  "All non-empty data sets that fit, all secrets (distinct modulo the field where difference is claimed), table dimensions, degrees, field sizes of at least 64 bits and thread counts.",
  "No test looks at blinded values: bptest and eopsisimul compute them and only time the computation.",
  [L+"eopsiclient.cpp", L+"eopsiparty.cpp", L+"hashbuckets.hpp", L+"zzpprf.cpp", L+"zzprf.cpp", L+"ntlmiss.cpp"],
  [("blinding", "EOPSIClient::blind"), ("public evaluation points", "EOPSIParty::getUnknowns"), ("dimensions", "EOPSIClient::getBlindedDataSize")],
  ["EOPSIClient::getBlindedData", "the client's hash buckets"])

p("C05", "Cloud and responder apply one and the same keyed transformation",
  "For a given temporary key, the cloud's output is, cell by cell, a key-derived mask plus the two clients' stored values each multiplied by the evaluation at the public point of a key-derived polynomial that is monic of degree exactly the bucket size, and the responder's share is the same transformation applied to the two clients' masks, so that the difference of the two shares is the combination of the two clients' polynomials. The output depends on nothing but the key, the stored data and the parameters (in particular not on earlier computations); its masks and polynomials are different for every cell, bucket, client position and key, and no key-derived value serves twice (as masks or coefficients); and all parties use the same, pairwise distinct evaluation points.",
  ["inputs", "configurations", "histories"],
  "All 128-bit keys, all stored matrices of field elements, all table lengths, bucket sizes and degrees >= 2*bucket size+1, any number of earlier computations on the same server.",
  "eopsisimul only sees the final intersection of one run; no test inspects the shares, repeats a key, or uses chosen stored data.",
  [L+"eopsiparty.cpp", L+"eopsiserver.cpp", L+"eopsiclient.cpp", L+"zzprf.cpp"],
  [("shared transformation", "EOPSIParty::computeTOrQ, genOmega"), ("evaluation points", "EOPSIParty::generateUnknowns"), ("responder share", "EOPSIClient::delegationOutput"), ("cloud share", "EOPSIServer::intersectionOutput")],
  ["payload of the OUTPUT_COMPUTATION and POLYNOMIAL messages received by a client"])

p("C06", "Murmur hash is the standard, deterministic function of its input",
  "For a given seed, the Murmur hash of a field element is the standard 128-bit x64 MurmurHash3 digest of the element's decimal representation (or of its first len characters when a smaller positive length is given). It depends on nothing else: not on the field modulus, on previously hashed values, on the object used, nor on memory contents, and it reads no byte outside the representation.",
  ["inputs", "histories"],
  "All elements of all fields (1 to several hundred decimal digits, hence all block/tail lengths), all 32-bit seeds, all truncation lengths, all sequences of hash calls on shared or separate objects.",
  "hbtest hashes a million 32-bit numbers and only looks at bucket sizes; equality of digests of equal elements is checked nowhere.",
  [L+"murmurhash3.cpp", L+"murmurhash3.h"],
  [("decimal conversion and truncation", "MurmurHash3::hash"), ("block mix, tail and finalisation", "MurmurHash3::murmurHash3_x64_128")],
  ["MurmurHash3::hash digest bytes"])

p("C07", "SHA adapters return the standard digest of exactly the given bytes",
  "The SHA adapters for byte arrays, strings and field elements return the standard SHA-1 or SHA-256 digest (by flavour, with the matching digest size) of exactly the given bytes, string or decimal representation, cut to the requested length when that is positive and smaller. Results depend on no earlier call or copied object, empty byte input yields no digest, the readable form is the digest's hexadecimal text, and an algorithm's name identifies its flavour.",
  ["inputs", "histories"],
  "All byte strings (empty, embedded zeros, around the 55/56/64-byte block limits, multi-block), all field elements, both flavours, all length arguments, all interleavings of calls on several adapter objects and copies of them.",
  "hbtest only looks at the bucket sizes that SHA-hashed numbers lead to; the digests are compared with nothing.",
  [L+"sha.hpp", L+"shabyte.cpp", L+"shastr.cpp", L+"shazzp.cpp", L+"hashalgorithm.hpp", L+"hashflavour.h"],
  [("flavour selection", "SHA::setFlavour"), ("length truncation", "SHAString::hash, SHAZZp::hash"), ("hex encoding", "HashAlgorithm::readableDigest")],
  ["hash, hashSize, name, readableDigest"])

p("C08", "The hash table places, keeps and bounds its elements",
  "Adding an element puts it, unchanged and exactly once, at the end of the bucket given by its digest read as a little-endian natural number modulo the number of buckets (or the bucket explicitly named), every other bucket stays as it was, and the reported size is the number of elements added. Elements are never silently dropped and a bucket never exceeds the maximum load: an addition to a full bucket and any access to a bucket index outside the table are refused with a fatal out-of-bounds error that ends the program with status 1. Printed statistics (total, minimum, maximum, average, variance) agree with the buckets' actual sizes.",
  ["histories", "inputs"],
  "All sequences of single, bulk and explicit-bucket additions and reads, for any number of buckets and maximum load >= 1, any element type and any hash algorithm with any digest size.",
  "hbtest adds a million numbers once and only compares the printed total and maximum with bounds; no test fills a bucket or reads its contents back.",
  [L+"hashbuckets.hpp", L+"hashtable.hpp", L+"strint.cpp", L+"outofboundex.cpp", L+"exception.cpp"],
  [("index computation and load check", "HashBuckets::add, addToBucket"), ("access check", "HashTable::getBucket, operator[]"), ("statistics", "HashBuckets::printStats")],
  ["getBucket, operator[], size, getLength, getMaxLoad, printStats output, exit status"])

p("C09", "Concealment fills every bucket and keeps the original elements",
  "After concealing, every bucket holds exactly the maximum load: first its original elements in their order, then fillers taken from the given generator, each generated value being used exactly once, and the number of generated values is exactly the number of free cells. Exactly the buckets that were empty are marked, and concealing again changes nothing. A marked vector is marked as it was told last, whatever else is done with it, and so is its copy.",
  ["inputs", "histories"],
  "All tables (dimensions, contents from empty to completely full), all generators of fillers, with concealment possibly repeated.",
  "The programs call conceal once on large tables and never look at the buckets afterwards.",
  [L+"hashbuckets.hpp", L+"markedvector.hpp", L+"prf.hpp"],
  [("marking and filling", "HashBuckets::conceal"), ("marks", "MarkedVector"), ("filler stream", "PseudoRandom::generate()")],
  ["getBucket(i) contents and isMarked"])

p("C10", "The pseudo-random function is stable, in range and history-free",
  "For a seed, an index and a positive number of bits, the pseudo-random natural is always the same number below 2^bits, whatever other values the object generated before, and on every object and copy: the first ceil(bits/8) bytes, least significant first and cut to the given bits, of the SHA-1 chain that starts from the seed's bytes followed by the eight index bytes and feeds each digest to the next. Without an explicit seed an object picks one seed and keeps it, and the argument-less generator steps through consecutive indices, so its values follow the same function; with no bit length given, a number of random length is produced without error.",
  ["inputs", "histories"],
  "All seeds (zero to thousands of bits), all 64-bit indices, all bit lengths (byte-aligned or not, below and above one digest), all interleavings of calls of different sizes on one object.",
  "zzrndgen is only checked for numbers below 2^32; nothing checks values, repeats, or mixed sizes on one object.",
  [L+"zzprf.cpp", L+"zzprf.h", L+"prf.hpp", L+"shabyte.cpp", L+"ntlmiss.cpp"],
  [("hash chain and bit cut", "ZZPRF::generate"), ("reused buffers", "ZZPRF gen/hashInput"), ("automatic seed", "PseudoRandom::generate(index, bits)")],
  ["ZZPRF::generate"])

p("C11", "The field pseudo-random function reduces the integer one",
  "For every modulus, seed, index and requested bits, the generator of field elements returns the integer pseudo-random value of the same seed and index with the requested bits, reduced modulo the field; no bits requested, or more than the modulus has, means as many as the modulus has. The value is the same on every generator for that modulus, including one constructed from an existing integer generator, and building, using and destroying generators in any order leaves the others usable. Without an explicit seed a generator picks one by itself and keeps it; generators of their own pick different ones.",
  ["inputs", "histories"],
  "All moduli >= 2, seeds of the field, indices, bit lengths and all construct / use / destroy sequences of generators, with and without a shared integer generator.",
  "No test looks at generated field elements; no program builds a generator from an existing one.",
  [L+"zzpprf.cpp", L+"zzpprf.h", L+"zzprf.cpp", L+"sha.hpp"],
  [("bit length choice and reduction", "ZZpPRF::generate"), ("copy of an integer generator", "ZZpPRF constructor")],
  ["ZZpPRF::generate"])

p("C12", "Polynomial batch finds exactly the padded roots",
  "Given distinct points and, per polynomial, its values there, the batch of polynomials finds exactly the padded roots: for each polynomial, every distinct root in the field whose binary form ends with at least the padding's number of zeros (the root zero included) is reported once with the padding removed, grouped in polynomial order, and nothing else is reported. The one-call and the interpolate-factorise-find ways, and both factoring algorithms, report the same elements, and an object can be reused in any order of these ways (work left half done included) with any numbers of polynomials, under another modulus, and with any number of threads asked for.",
  ["inputs", "histories"],
  "All batches of non-zero polynomials (known roots with multiplicities, irreducible factors, any non-zero leading coefficient), fields, padding sizes and all call sequences on one object.",
  "polyfact times the external library's factorisation directly and checks nothing; the class itself is only reached through eopsisimul.",
  [L+"zzppoly.cpp", L+"zzppoly.h", L+"ntlmiss.cpp"],
  [("interpolation and monicisation", "ZZpPolynomials::interpolate/makeMonic/findIntersection"), ("padding filter", "ZZpPolynomials::findIntersection"), ("buffers reused between calls", "polynomials, factorPairs")],
  ["findIntersection results, size, getPadsize"])

p("C13", "Byte strings behave as little-endian natural numbers",
  "A number set from bytes has the value of those bytes read little-endian (bytes beyond the declared maximum length ignored, no bytes meaning zero), and setting a machine word, incrementing and adding are exact natural-number arithmetic of any size. The remainder, the decimal text, the least significant machine word, the byte size and the big-endian byte conversion (written into the given buffer when it is large enough, into newly allocated memory otherwise) always agree with the current value.",
  ["inputs", "histories"],
  "All declared lengths, byte strings (any length incl. zero), words, divisors >= 1 and operation sequences on one object.",
  "Only the remainder of 16-, 20- and 32-byte digests is ever used, and no test compares it with anything.",
  [L+"strint.cpp", L+"strint.h"],
  [("pairwise summation of shifted bytes", "StrInt::set"), ("arithmetic", "StrInt::inc/add/rem"), ("conversions", "StrInt::toBytes/getByteSize/toString/lsb")],
  ["StrInt public methods"])

p("C14", "Number helpers satisfy their arithmetic definitions",
  "For all natural numbers: the base-2 logarithm is the floor of the logarithm (0 for 0 and 1); block and byte counts are the least counts that can hold the given bits or number; padding multiplies by two to the pad size; padding up to a size yields one bit less than that size and leaves longer numbers unchanged; counting zeros gives the exact number of trailing binary zeros of a positive number, so padding never loses information. Conversions from arrays and vectors keep every element in order, in both the returning and the in-place form.",
  ["inputs"],
  "All natural numbers up to thousands of bits, all pad sizes, all arrays incl. empty and null.",
  "None of these helpers is tested directly.",
  [L+"ntlmiss.cpp", L+"ntlmiss.h"],
  [("helpers", "NTL::log2, blocks, bytes, zeroPad, zeroPadTo, countLeadingZeros, vector2VecZZp, array2VecZZp, printZZArray")],
  ["return values"])

p("C15", "The stopwatch reports exactly the times between its marks",
  "For any sequence of start, step, pause, continue and stop marks at any clock times, each named or numbered interval reported is the time between that mark and the previous one (the last interval when none is given, zero when there is none), cumulative times, averages, standard deviations, minima and maxima are those of the intervals not paused (or of all intervals when pauses are explicitly to be counted), marks after a stop change nothing, a new start forgets everything before it, and the paused and stopped states follow the marks.",
  ["histories"],
  "All mark sequences with and without names (repeated names included), all non-decreasing clock readings, all queries with and without pauses.",
  "The programs print whatever times they measure; polyfact's check only requires min <= average <= max.",
  [L+"simplebm.cpp", L+"simplebm.h"],
  [("marks, pauses and cursors", "SimpleBenchmark::takeTime, times/pauses/cursors"), ("statistics", "sumNotPausedTimes, average, variance, minOrMax")],
  ["SimpleBenchmark public methods under a controlled clock"])

p("C16", "Fatal exceptions end the program, other exceptions carry their message",
  "Constructing a fatal exception of any of the library's kinds ends the program with the requested exit status (1 for out-of-bounds) after writing its message to standard error, even where the exception would be caught. A non-fatal one never does: it can be caught as a standard exception and its text is exactly the given message, or for an out-of-bounds exception without one a fixed explanation. Message, fatality and exit status set later are reported as last set (setting fatality without saying which means fatal) and end nothing.",
  ["inputs"],
  "All messages (empty, long, any bytes but NUL), fatality flags and exit codes 0..255, for the three exception kinds, thrown and caught by any of their base classes.",
  "No test triggers an exception.",
  [L+"exception.cpp", L+"exception.h", L+"outofboundex.cpp", L+"protocolex.h"],
  [("fatality", "Exception::handleFatality")],
  ["exit status, stderr, what(), getMessage()"])

p("C17", "Every computation request uses a fresh key and discloses nothing else",
  "Each accepted computation request makes the responder send the cloud exactly one request consisting of the two names and a temporary key of exactly 128 bits, new for every request and independent of the data and the secrets; the cloud answers only the named partner and the responder answers only the requester, each exactly once. The two shares sent to the requester are different in every cell for each run, even when the same request on the same data is repeated, and neither share is the unmasked combination.",
  ["histories", "inputs"],
  "All histories of requests among clients with arbitrary data, names and secrets, observed on every link.",
  "No test observes messages between parties.",
  [L+"eopsiclient.cpp", L+"eopsiserver.cpp", L+"eopsiparty.cpp"],
  [("temporary key", "EOPSIClient::receive, CLIENT_COMPUTATION_REQUEST"), ("request layout", "EOPSIServer::receive, CLOUD_COMPUTATION_REQUEST")],
  ["messages seen by spying parties on every link"])

p("C18", "The parameter tool never under-sizes the hash table",
  "For a bucket size, a number of elements and a target overflow probability that some table can meet, the parameter tool prints the smallest number of buckets, among those obtained from integer expected loads, for which the Chernoff bound on the overflow probability is within the target, and the printed bound and expected load belong to that number. For a target out of reach it presents no table size. The quiet and the verbose output agree.",
  ["inputs"],
  "All bucket sizes 1..600, element counts 2^1..2^40 and targets 2^-0.01..2^-120, integer or fractional, reachable or not.",
  "The tests run 20 parameter sets and only compare the tool's own two printed numbers.",
  ["src/test/cherpars.cpp"],
  [("search for the expected load", "main loop over mu")],
  ["standard output and exit status of cherpars"])

p("C19", "The command-line programs do what they report",
  "The number generator writes the bit size, the count and exactly that many naturals below two to the bit size; the hash-table program places every number of such a file in the bucket its hash determines and reports that table, or refuses a table too small; the protocol simulation reports a correct intersection for every combination of set size, number of common elements, bit sizes and a table sized to hold the sets; and the polynomial and factoring programs complete every step for every size, or refuse a table too small, and report times whose totals, averages, deviations and extremes agree with each other.",
  ["inputs", "configurations"],
  "All counts >= 1 and bit sizes >= 1, table dimensions, hash algorithms and numbers of common elements 0..n, fields with at least 44 bits more than the plain elements, for any time-derived seeds.",
  "The stable tests cover one generator call, one table size, only an empty intersection and one field size.",
  ["src/test/zzrndgen.cpp", "src/test/hbtest.cpp", "src/test/eopsisimul.cpp", "src/test/bptest.cpp", "src/test/polyfact.cpp", "src/libeopsi"],
  [("programs", "main of each program")],
  ["output files, standard output and exit status"])

p("C20", "Repeated use needs no more memory than before",
  "Whatever sequence of protocol runs (served, refused by client or cloud, with shares arriving late or in either order), re-outsourcing, hashing, random generation, table filling, polynomial batches, number arithmetic, time taking, raising and catching of non-fatal exceptions, copying and assigning is repeated, with objects that are kept or objects built and destroyed each time, the memory in use does not grow with the number of repetitions: what an operation needs is given back or used again, a completed run's shares are released, a refused message leaves nothing behind, and destroying an object gives back all it held.",
  ["histories"],
  "All sequences over the library's public operations, repeated any number of times, in every order of construction and destruction.",
  "The tests run each program once and never look at memory; a leak only matters over many runs.",
  ["src/libeopsi"],
  [("release of shares and requests", "EOPSIClient::receive, EOPSIServer::receive"), ("owned buffers", "destructors and setters of every class"), ("reuse", "ZZpPolynomials, ZZPRF, SHA, HashBuckets, StrInt, SimpleBenchmark")],
  ["the live heap after every repetition"])

p("C21", "Threads with objects of their own do not influence one another",
  "When several threads use the library at the same time, each with its own objects (hash algorithms, generators, hash tables, polynomial batches, numbers, stopwatches, or whole sets of protocol parties, over equal or different moduli), every thread gets exactly the results it gets when it runs alone, under every schedule and without crashes; objects share no state behind the user's back. Only values that are random by contract (own seeds, temporary keys, fillers) may differ.",
  ["schedules", "inputs"],
  "All interleavings of any number of threads over all public operations, no object being used by two threads at once.",
  "The tests run single-threaded programs only.",
  ["src/libeopsi"],
  [("state kept in objects, not in globals", "all classes; the modulus is NTL's per-thread one"), ("buffers of digests", "SHA::lastHash, MurmurHash3::hash128"), ("scratch buffers", "ZZPRF, StrInt, ZZpPolynomials")],
  ["results of every thread"])

p("C22", "Parties and messages keep what they are given",
  "A message reports the type, the sender's name and the data (with its length) it was last given, whatever other messages or copies are given; its strings are read one after another, each up to its terminator and never beyond the message's length, and a failed reading changes nothing. A party reports the name, role, field and degree it was last given; it has authenticated exactly the parties it was told to authenticate, itself excepted, whether asked by name or by party, and when another party of a known name is authenticated, that one stands for the name from then on and gets the messages. Authorisation follows the role the sender has at that time. A client hands back the very data, size and secret it was given (as a number or as bytes, at construction or later), as many values as buckets times evaluation points, and an empty intersection before any computation; no data leaves everything as it was, and asking never changes anything.",
  ["inputs", "histories"],
  "All sequences of settings, authentications, questions and requests over any number of messages and parties of any names and roles.",
  "The tests use one client pair and one server, authenticate each once and never look at what they report.",
  ["src/libeopsi/eopsimsg.cpp", "src/libeopsi/eopsiparty.cpp", "src/libeopsi/eopsiclient.cpp", "src/libeopsi/eopsiserver.cpp"],
  [("messages", "EOPSIMessage"), ("names and authentication", "EOPSIParty::authenticate, hasAuthenticated, getPartyById"), ("roles", "isAuthorised of client and server"), ("client data", "EOPSIClient::setRawData, setSecret, get...")],
  ["values reported by messages and parties", "who receives which message"])

p("C23", "Results depend on inputs alone; surroundings stay as they were",
  "What the library computes (complete protocol runs, digests, generated numbers and field elements for given keys and seeds, tables, polynomial batches, number arithmetic, conversions, statistics over given times) is a function of what it is given. It does not depend on the global C or C++ locale, on the format, state or buffers of the standard streams, on ambient randomness, the date, environment variables, memory contents, the thread that carries out a step, other work done before or in between, or installed handlers. In turn, an operation leaves its surroundings as they were: current modulus, locales, format and error state of the standard streams, rounding mode, signal, terminate and new handlers, environment variables, open files, threads, the working directory and the files in it. Only values random by contract (own seeds, temporary keys, fillers) depend on ambient randomness.",
  ["configurations", "inputs", "histories"],
  "All operations on all inputs, carried out under any locale, stream formatting or failure, ambient randomness, time, environment variables, memory contents and thread, after or between any other operations.",
  "Every test runs one program in one and the same plain environment.",
  ["src/libeopsi"],
  [("numbers as text", "MurmurHash3::hash, SHAZZp::hash, StrInt::toString"), ("names", "SHA::getName, MurmurHash3::getName"), ("modulus saved and restored", "EOPSIParty, ZZpPolynomials, ZZPRF"), ("warnings and logs", "operator<< of the classes, exceptions")],
  ["results, and everything that can be asked about the process afterwards"])

p("C24", "Copies are objects of their own",
  "Where the library lets an object be copied or assigned (numbers from bytes, hash tables, polynomial batches, Murmur and SHA adapters over bytes and strings, generators of numbers and field elements, stopwatches, messages, marked vectors, exceptions), the copy continues exactly as the original would: from then on each of the two gives what an object would give that had done, without any copying, what this one and the ones it was copied from have done. Using, changing, reassigning or destroying one of them never changes, invalidates or releases anything of the other, assigning an object to itself changes nothing, and each object gives back only what is its own.",
  ["histories"],
  "All histories of operations, copies, assignments (to itself included) and destructions over any number of objects of each copyable class, in any order. Parties have an identity and are not copied; SHAZZp owns a stream and cannot be.",
  "No test copies an object of the library and then uses both.",
  ["src/libeopsi"],
  [("owned buffers", "StrInt, HashBuckets, ZZpPolynomials, SHA, MurmurHash3, ZZPRF, ZZpPRF"), ("state of histories", "SimpleBenchmark, MarkedVector, EOPSIMessage, ProtocolException")],
  ["results of every operation on every object after every step"])

p("C25", "Running out of memory gives no wrong result",
  "When an allocation the library makes (any form of operator new, or malloc) fails at any point of any operation (hashing, generating, tables, polynomial batches, number arithmetic, statistics, protocol runs), once, several times or from then on, one of three things happens: the process ends in order with exit status 2 and a message saying why; or std::bad_alloc reaches the caller, after which all objects can be destroyed and the same work, done again, gives the right result (a hash or generator call may even be repeated on the same object); or the operation succeeds with the right result. It never goes on with a wrong, incomplete or empty result, crashes, is killed by a signal, or ends with another status.",
  ["fault_sequences", "inputs"],
  "Every allocation made by the library, or for it through operator new, in any of its operations, failing alone, with some of those after it, or with all of them. NTL's own allocations, whose failure NTL answers by ending the process, are not made to fail.",
  "Allocations never fail in the tests.",
  ["src/libeopsi"],
  [("failed allocations", "AllocationException and its handlers in every class"), ("numbers as text", "MurmurHash3::hash, SHAZZp::hash, StrInt::toString"), ("buffers", "SHA, ZZPRF, ZZpPolynomials, HashBuckets, StrInt, EOPSIClient, EOPSIServer")],
  ["exit status, standard error, exceptions and results"])

p("C26", "What is handed over, and what has been handed back, stays as it was",
  "No operation alters what it is given to read: byte arrays, strings, lists and arrays of elements, points and values, matrices, secrets, a client's data, the data it has outsourced, the table it has filled, and the messages sent (their type, sender, data and length, served or refused) keep their content, and their memory stays the caller's (except the data of a request the cloud has served and shares a client has taken, which are passed on for good). What an object has handed back (digests, roots, texts, converted numbers, outsourced values, filled tables) stays as it was until that very object is used again or ends, whatever other objects do; what was newly allocated for the caller stays for good. A buffer given to be written into is changed only where the result is written.",
  ["histories", "inputs"],
  "All histories of operations over any number of objects of all classes that are given any inputs, the same ones repeatedly, in buffers of any size.",
  "The tests look at neither inputs nor earlier results after an operation.",
  ["src/libeopsi"],
  [("digests handed back", "MurmurHash3::hash, SHA*::hash"), ("roots handed back", "ZZpPolynomials::findIntersection"), ("bytes written", "StrInt::toBytes"), ("data and messages", "EOPSIClient::blind, EOPSIClient::receive, EOPSIServer::receive, EOPSIParty::computeTOrQ")],
  ["every input and every earlier result after every operation"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
