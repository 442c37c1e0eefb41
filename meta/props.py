"""Single source of properties.jsonl and MANIFEST.json (see gen.py)."""
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, observe=(), note="", technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mechanism=mechanism, observe=list(observe), note=note, technique=technique))


prop("C01", "CESR primitives survive every encoding and decode only canonically",
     "Every primitive value encodes to qualified text and binary forms of the length its code states, and both forms decode back to the same code, soft part and raw value, leaving any following stream bytes alone. A text or binary form that decodes is exactly the form the decoded value encodes to, so no two different strings mean the same primitive. A strict prefix of a valid form is never decoded as something else: it asks for more.",
     ["inputs"], "all raw values, soft parts and leading bytes, for every code in the code table; all character strings as candidate qualified text",
     "Tests encode a few fixed vectors per code; aliasing needs particular pad, lead or foreign characters among 64^n strings.",
     ["src/keri/core/coring.py", "src/keri/help/helping.py"],
     [("Matter._infil/_binfil/_exfil/_bexfil", "src/keri/core/coring.py"), ("code size tables", "src/keri/core/coring.py Matter.Sizes")],
     ["Matter(raw=, code=).qb64/qb64b/qb2", "Matter(qb64=), Matter(qb2=)"])
prop("C02", "Indexed signatures keep their indices in every encoding",
     "An indexed signature encodes its signature, key index and prior-key index so that text and binary forms decode to exactly the same three values and code. Indices that a code cannot carry are refused rather than wrapped, and codes for current-only or same-index signatures never yield a differing prior index. A form that decodes is the unique form of what it decodes to; a strict prefix asks for more.",
     ["inputs"], "all signatures, index and prior index values, for every indexed code; all strings as candidate forms",
     "Tests use a handful of index values; wrapping and big/small code boundaries need particular values.",
     ["src/keri/core/indexing.py"], [("Indexer._infil/_binfil/_exfil/_bexfil", "src/keri/core/indexing.py")],
     ["Indexer/Siger constructors and qb64/qb2/index/ondex"])
prop("C03", "Group counters state exactly the size of the group they frame",
     "A group count code of every supported version encodes its count so that text and binary forms decode to the same code, version and count, and a count the code cannot carry switches to the larger code or is refused. The text and binary sizes reported for a group agree with its count. No two different strings decode to the same counter, and a strict prefix asks for more.",
     ["inputs"], "every count of every code in both genus versions; all strings as candidate counters",
     "Tests use a few counts; overflow to big codes and foreign characters need boundary values.",
     ["src/keri/core/counting.py"], [("Counter._infil/_binfil/_exfil/_bexfil", "src/keri/core/counting.py")],
     ["Counter constructors and qb64/qb2/count/fullSize"])
prop("C04", "Signing thresholds are met exactly by enough distinct keys",
     "A numeric threshold is met exactly when at least that many different keys signed; a fractionally weighted threshold is met exactly when the weights of the different keys that signed reach one in every clause, with a nested group counting its weight exactly when its own members reach one. Repeating a key or reordering signatures never changes the answer. Every textual form of a threshold decides the same way, and expressions that no set of keys could meet, or that are malformed, are refused.",
     ["inputs"], "all thresholds, weights and sets of signer positions within the stated sizes",
     "Tests pick a few index lists; repeated indices and near-one rational sums are where errors hide.",
     ["src/keri/core/coring.py"], [("Tholder.satisfy and its processors", "src/keri/core/coring.py")], ["Tholder(sith=/limen=/thold=).satisfy"])
prop("C05", "Only keys whose signatures verify count, and each counts once",
     "When a message's attached signatures are checked against a key list, exactly the key positions with at least one signature that verifies over that message with that key are counted, each once, however signatures repeat, reorder, name positions outside the list or use different codes. A message is valid exactly when the counted positions meet its threshold, and is refused when nothing verifies or when the threshold asks for more keys than there are.",
     ["inputs"], "all signature lists, positions, codes and validity combinations within the stated sizes",
     "Tests attach honest signature lists; duplicates under another code, out of range positions and mixed validity are combinations nobody samples.",
     ["src/keri/core/eventing.py", "src/keri/core/signing.py"], [("verifySigs, validateSigs", "src/keri/core/eventing.py")],
     ["verifySigs, validateSigs results"])
prop("C06", "Base64 numbers, sextets and version strings convert without loss",
     "Numbers, codes and sextet strings convert to Base64 and back to the same value with the stated lengths, and text outside the URL safe alphabet is refused. A version string states exactly the protocol, versions, kind and size it was made from, is found wherever it may stand in a message, and anything that is not one is refused. The first byte of a stream is classified the same way for every value of the remaining bits.",
     ["inputs"], "all numbers, texts, sextet strings, version field values and leading bytes within bounds",
     "Tests use fixed vectors; wrong padding, offsets and foreign characters need boundary values.",
     ["src/keri/help/helping.py", "src/keri/kering.py"],
     [("intToB64, b64ToInt, codeB64ToB2, nabSextets", "src/keri/help/helping.py"), ("versify, deversify, smell, sniff", "src/keri/kering.py")],
     ["return values of the named helpers"])
prop("C07", "Value carrying primitives hold exactly the value they were made from",
     "Ordinals, numbers, decimals, dates, tags, message types, versions, texts, labels and paths give back through text and binary forms the very value they were created from, and refuse values they cannot carry instead of truncating. Ordinals of fixed width sort as their numbers do. Path prefix tests and stripping compare whole parts, and resolving a path yields exactly the addressed value or an error.",
     ["inputs"], "all numbers, characters and path parts within the stated widths",
     "Tests use a few literals; width boundaries, trailing characters and part boundaries are not sampled.",
     ["src/keri/core/coring.py", "src/keri/help/helping.py"],
     [("Seqner, Number, Decimer, Dater, Tagger, Verser, Texter, Bexter, Labeler, Pather", "src/keri/core/coring.py")],
     ["primitive properties after decoding qb64/qb2"])
prop("C11", "An identifier's event log only ever grows as one linked chain",
     "An event is accepted only as an inception or as the very next number linked to the digest of the latest accepted event, except that a rotation may replace unconfirmed later interactions (never a rotation, nor events at or before the last rotation). Accepting appends exactly that event to the log and to the first seen order and yields the key state it states; anything else leaves log, order and key state as they were. Identifiers that cannot rotate or are establishment only never accept the events they exclude.",
     ["inputs", "histories"], "all numbers, digests, identifiers, event kinds and signature validity over short histories",
     "Tests replay honest sequences; wrong numbers, links and recoveries at other places are histories they do not build.",
     ["src/keri/core/eventing.py", "src/keri/db/basing.py"], [("Kever.update, Kever.rotate, Kever.logEvent", "src/keri/core/eventing.py")],
     ["db.kels, db.fels, db.states and Kever attributes"])
prop("C12", "Keys change only to keys that were committed to in advance",
     "A rotation is accepted only if enough distinct positions of its new key list signed it to meet its own threshold, and enough of the digests committed by the prior establishment event are exposed by keys that signed, to meet the threshold committed there. A digest counts only for the signed key it is the digest of, at the prior position the signature states. A refused rotation changes no key state, and an identifier that committed to no next keys never changes again.",
     ["inputs"], "all signature positions, prior positions, codes, validity and thresholds within the stated sizes",
     "Tests rotate honestly; reserve rotations with mixed current and prior positions have combinations no list samples.",
     ["src/keri/core/eventing.py"], [("Kever.rotate, Kever.valSigsWigsDel, Kever.exposeds", "src/keri/core/eventing.py")],
     ["accept or refuse, escrow contents, key state"])
prop("C13", "Events count only with enough receipts of their own witnesses",
     "An event is accepted from elsewhere only if at least its threshold of distinct witnesses of its own witness list signed it, each at the position it states; otherwise it is kept with exactly the verified witness signatures. The witness list after a rotation is the prior list without its cuts followed by its adds, also when the rotation is a recovery, and cuts or adds that repeat, overlap or do not fit, or a threshold outside the list, are refused. The key state and the stored list are those same witnesses.",
     ["inputs", "histories"], "all thresholds, stated positions and makers of witness signatures over many combinations of lists, cuts and adds",
     "Tests rotate a few lists honestly; a receipt at another witness's position, repeated receipts or changes in a recovery are not sampled.",
     ["src/keri/core/eventing.py"], [("Kever.deriveBacks, Kever.rotate, Kever.valSigsWigsDel, Kever.incept", "src/keri/core/eventing.py")],
     ["accept or escrow, Kever.wits, db.wits, db.wigs, db.states"])
prop("C08", "A message is accepted only if its digest binds all of its bytes",
     "A message whose bytes differ anywhere from those its identifier digest was made over is refused, whether read from bytes or from a stream, and a said field that does not hold a digest is refused. A message with a missing, extra or misplaced field is refused even when its size and digest are right. Reading an intact message takes exactly its own bytes from the stream.",
     ["inputs"], "all replacements of bytes at the stated positions, all single field changes, for every sort of message and serialization",
     "Tests alter one or two fields of one message; tamper evidence is about every byte and every code letter.",
     ["src/keri/core/serdering.py"], [("Serder._verify, _validate, _inhale; SerderKERI._verify; Serdery.reap", "src/keri/core/serdering.py")],
     ["Serder(raw=), Serder(sad=), Serdery.reap accept or raise"])
prop("C09", "Messages read back from their bytes say what was put into them",
     "A message made from any content and read back from its bytes has the same fields in the same order with the same values, the same digest and bytes, in JSON, MGPK, CBOR and native CESR, or is refused when made. Its version string states its protocol, versions, serialization and size. What the accessors report (numbers, thresholds, keys, witnesses, seals) is what was asked for.",
     ["inputs"], "all numbers, keys, digests, thresholds, texts and seal groupings within the stated sizes",
     "Tests compare a few fixed messages; regrouped seals, odd characters and field widths are not sampled.",
     ["src/keri/core/serdering.py", "src/keri/core/eventing.py", "src/keri/core/structing.py"],
     [("Serder.makify, dumps/loads, _dumps/_loads", "src/keri/core/serdering.py"), ("incept, rotate, interact", "src/keri/core/eventing.py")],
     ["Serder.raw, .sad, .said and accessors"])

prop("C15", "The first accepted version of an event stays in force against rivals",
     "Once an event is accepted, a different event at its number that the recovery rules do not let in never changes the key state, the event log, the first seen log or the signatures of the accepted event: it is refused and kept aside as likely duplicitous with the locality of its source. An accepted event that arrives again only adds signatures, and each added signature is one that verifies under the signing key or the witness at its stated position in the lists in force at that event's number.",
     ["inputs", "histories"], "every event number of many histories with rotations, witness changes and recoveries; every kind of rival event; every stated position and maker of the added signatures",
     "Tests replay an event once with its own good signatures; mixing up which keys or witnesses were in force at an earlier number needs rotations around it.",
     ["src/keri/core/eventing.py", "src/keri/db/basing.py"],
     [("Kevery.processEvent, escrowLDEvent, fetchEstEvent, fetchWitnessState, processEscrowDuplicitous", "src/keri/core/eventing.py"), ("verifySigs, Kever.logEvent", "src/keri/core/eventing.py")],
     ["Kevery.processEvent on an accepted or rival event", "db.sigs, db.wigs, db.kels, db.fels, db.ldes"])

prop("C18", "Receipts are stored exactly with the event they verify for",
     "A receipt signature is stored with an accepted event exactly when it verifies over that event under the key it claims: a witness by list position or by its own key in the witness list in force at that event, a nontransferable outsider by its own key, a transferable one by the key at its position in the establishment event it cites. Receipts of superseded, rival or unknown events at a taken number are never stored with the event in force. Receipts that come before the event, before the receipter's keys, or for an event waiting for witnesses are kept, and have the same effect once those are there.",
     ["inputs", "histories"], "every event of many histories with rotations, witness changes and recoveries; every maker, stated position, receipter and arrival order of the receipts within the bounds",
     "Tests receipt one event in one order with matching witnesses; wrong attribution needs witness changes or rival events between receipt and event.",
     ["src/keri/core/eventing.py", "src/keri/db/basing.py"],
     [("Kevery.processReceipt, processAttachedReceiptCouples, processAttachedReceiptSigGroups", "src/keri/core/eventing.py"), ("Kevery.processEscrowUnverWitness, processEscrowUnverNonTrans, processEscrowUnverTrans, processEscrowPartialWigs", "src/keri/core/eventing.py")],
     ["Kevery.processReceipt / processEscrows", "db.wigs, db.rcts, db.vrcs, db.kels"])

prop("C16", "Delegated events take effect only under their delegator's seal in force",
     "A delegated inception or rotation is accepted from elsewhere exactly when an event in force in the delegator's log seals its identifier, number and digest; without one it is kept and accepted once the seal is there, and the source stored with it is such an event. A delegated rotation replaces an accepted one only when its seal stands later in the delegator's order (same event, later event, or superseding one, also up the chain of delegators) and the keys committed before the replaced rotation sign it. Own, witnessed and delegated identifiers take these events from protected sources only, and a log rotates only by the kind its inception set.",
     ["inputs", "histories"], "all seals (identifier, number, digest, shape), source couples, arrival orders and places of rival seals over short logs of delegator and delegate",
     "Tests delegate honestly in one order; seals in superseded events, near miss seals and rival rotations sealed at other places are not sampled.",
     ["src/keri/core/eventing.py", "src/keri/db/basing.py"],
     [("Kever.valSigsWigsDel, validateDelegation, Kevery.processEscrowPartialDels", "src/keri/core/eventing.py"), ("fetchLastSealingEventByEventSeal, fetchAllSealingEventByEventSeal", "src/keri/db/basing.py")],
     ["Kevery.processEvent / processEscrowPartialDels", "db.kels, db.fels, db.pdes, db.aess, db.misfits, db.delegables"])

prop("C19", "The latest verified signed reply about an endpoint is the one in force",
     "A reply on an endpoint role, a location or a watched identifier takes effect only when signed by the identifier it speaks for under keys of the establishment event it cites, to that event's threshold, and only when it is later than the reply in force: under a later establishment event, or under the same with a later date (nontransferable signers: a later date). Replies citing events not yet there wait and are then judged the same; a stale, unverified or replayed reply changes nothing, never removes the one in force, and every signature kept with it verifies. Own identifiers accept theirs from protected sources only, unknown routes, roles, schemes and actions are refused, and key state notices count only from trusted sources when not behind or against the known log.",
     ["inputs", "histories"], "all dates, cited establishment events, verdicts and repetitions over sequences of up to three replies and an establishment event arriving between them",
     "Tests send replies in one good order; replays, repetition under other keys and waiting replies that fail later are histories they do not build.",
     ["src/keri/core/routing.py", "src/keri/core/eventing.py"],
     [("Revery.acceptReply, updateReply, removeReply, escrowReply, processEscrowReply, Router.dispatch", "src/keri/core/routing.py"), ("Kevery.processReplyEndRole, processReplyLocScheme, processReplyAddWatched, processReplyKeyStateNotice", "src/keri/core/eventing.py")],
     ["Revery.processReply / processEscrowReply", "db.eans, db.ends, db.lans, db.locs, db.wwas, db.obvs, db.rpys, db.tsgs, db.scgs, db.rpes, db.ksns"])

prop("C22", "Stores keep exactly what was put, in order, key by key",
     "In every kind of store (single values, values by ordinal, insertion ordered sets and duplicates, with and without ordinals) each put, pin, add, append, remove, get, iterate (forward, backward, last ones, from an ordinal or branch) and count does and returns what its contract says, under every neighbouring key, ordinal and separator. Sets hold each value once in the order added, appends take the next ordinal, removals touch nothing else, and other stores are untouched. What the browser backed store saved is what it has when opened again.",
     ["inputs", "histories"], "all ordinals in the bounds and at the top of their range, neighbouring keys that are prefixes of each other or sort before the separator, repeated and empty values, any one operation after up to four groups of values",
     "Tests walk one content with well separated keys; neighbours, gaps in ordinals, repeats inside one call and unsaved changes are not sampled.",
     ["src/keri/db/dbing.py", "src/keri/db/webdbing.py"],
     [("LMDBer.put*/pin*/add*/append*/rem*/get*/cnt*", "src/keri/db/dbing.py"), ("WebDBer, flush, open", "src/keri/db/webdbing.py")],
     ["LMDBer, WebDBer methods and the content of their sub dbs"])

prop("C29", "Credentials are issued and revoked only as their issuer sealed",
     "A registry and transaction event is accepted exactly when it is the next of its log, names the event before it, its registry is known and it is sealed by identifier, number and digest in the very event of the registry owner's log it came with; a registry with backers also needs its threshold of distinct backers in force to have signed. Events that come early wait and are accepted whatever the order of arrival and whatever rivals wait beside them; the state of a credential in a registry, and the registry across rotations of backers and restarts, is that of its accepted events alone. Refused events change no log and no state.",
     ["inputs", "histories", "schedules"], "all near seals, couples, owners, backer verdicts and positions in the bounds, over histories of two registries and arrival orders with rivals",
     "Tests issue and revoke in one order in one registry; near seals, another registry's events, rivals in escrow and restarts are not sampled.",
     ["src/keri/vdr/eventing.py"],
     [("Tevery.processEvent, processEscrowOutOfOrders, processEscrowAnchorless", "src/keri/vdr/eventing.py"), ("Tever.update, rotate, issue, revoke, valAnchorBigs, verifyAnchor, getBackerState, vcState, reload", "src/keri/vdr/eventing.py")],
     ["Tevery.processEvent / processEscrows", "reger.tels, tvts, ancs, tibs, taes, oots, twes, tevers, Tever.vcState"])

prop("C30", "A credential counts only when issued, valid and rightly chained",
     "A credential is saved exactly when the registry it names is known and belongs to the issuer it names, that registry holds its issuance on a state not out of date, its schema is known and it conforms, and every edge leads to a saved, issued and unrevoked credential that conforms to the edge's schema and stands in the relation its operators demand (issuer is the far issuee, issuees equal, or none); operators not implemented are refused. What merely lacks something waits and is saved once all is there, in whatever order it comes, until its time is over; indices by issuer, issuee and schema name exactly the saved credentials.",
     ["inputs", "histories", "schedules"], "all operator texts, issuers, issuees and ages in the bounds, all combinations of claimed issuer, registry, state, schema and edge, over orders of arrival",
     "Tests verify honest credentials and a handful of operator mismatches; foreign registries, ages at the limit and orders of arrival are not sampled.",
     ["src/keri/vdr/verifying.py", "src/keri/core/scheming.py"],
     [("Verifier.processCredential, verifyChain, processEscrows, saveCredential", "src/keri/vdr/verifying.py"), ("CacheResolver, Schemer, JSONSchema", "src/keri/core/scheming.py")],
     ["Verifier.processCredential / processEscrows / verifyChain", "reger.saved, creds, issus, subjs, schms, mre, mse, mce"])

prop("C20", "A request counts once, in its window, and only authenticated",
     "With request authentication enabled, a query or exchange message that is not on the list of denials is handed on only when its sender seals it in its log, or signs it under its keys in force to their threshold (in one delivery, or accumulated over several under unchanged keys), and its date is within the drift and lag configured for its most specific type, exchanges also within their exchange's time. It is handed on at most once ever, whatever is delivered again, with whatever attachments, at whatever clock reading and however the cache is pruned between; a first delivery that meets all this is handed on.",
     ["inputs", "histories", "schedules"], "all dates, clock readings at deliveries and prunings, verdicts of signatures, over sequences of two to three deliveries with every plan of attachments in the bounds",
     "Tests step one clock through chosen instants; replays after accumulation, pruning at the edge of a window and seals followed by signatures are not sampled.",
     ["src/keri/core/kraming.py"],
     [("Kramer.intake, kramit, _verifyAttachedSigs, _validateSenderSeal, _resolveAuthType", "src/keri/core/kraming.py"), ("Kramer._pruneMessages, _pruneExchanges", "src/keri/core/kraming.py")],
     ["Kramer.kramit / intake results", "db.kramMSGC, kramTMSC, kramPMKS"])

prop("C21", "A stream gives the same messages however it is cut or disturbed",
     "What is attached to messages comes out of the parser with the right message and as it went in, for every kind of attachment, serialization, version, text or binary domain and nesting of groups, in the order of the stream. However the stream is cut into pieces, no message is lost, repeated or changed, and nothing is left over. Faulty content of a sized group costs no more than the group: every message after it comes out unchanged, under the version in force outside.",
     ["inputs", "schedules"], "all cuts of the streams in the bounds, all values of the symbolic content, every value of one byte at many places inside a group",
     "Tests parse whole streams of fixed messages; cuts at odd places, partial messages behind groups and damage inside groups are not sampled.",
     ["src/keri/core/parsing.py", "src/keri/core/eventing.py", "src/keri/core/counting.py"],
     [("Parser.parsator, groupParsator, msgParsator and the extraction methods of groups", "src/keri/core/parsing.py"), ("messagize", "src/keri/core/eventing.py"), ("Counter.enclose", "src/keri/core/counting.py")],
     ["messages and attachments the parser dispatches", "Parser.ims, Parser.version"])

prop("C17", "An event log comes out the same in whatever order its pieces arrive",
     "The events of one log, each in any number of copies that carry part of its signatures, and their witness receipts may arrive in any order, with signatures that do not verify and forged events among them. Once escrows are processed until nothing changes, exactly the events are in force whose predecessors are and whose good signatures, taken over all copies and receipts, reach the thresholds of signers and witnesses (and which the delegator sealed, if delegated). Every signature that verifies is kept with its event, none that does not is, and nothing complete is left waiting.",
     ["inputs", "schedules"], "all orders of the deliveries in the bounds, all verdicts of the free signatures, several schedules of escrow processing",
     "Tests deliver one or two chosen orders with good signatures only; orders and mixtures grow factorially.",
     ["src/keri/core/eventing.py", "src/keri/db/basing.py"],
     [("Kevery.processEvent, processReceipt, processEscrows and the escrow methods of Kevery and Kever", "src/keri/core/eventing.py")],
     ["Kevery.processEvent / processReceipt / processEscrows", "db.kels, db.fels, db.sigs, db.wigs, escrow stores"])

prop("C24", "A stop at any write loses nothing and leaves a consistent log",
     "If the process stops between any two writes, the next one finds every identifier in a state whose events are all in its log, first seen and signed, and can read what it finds. Taking in the same again gives the same logs, states, replies and registries as without the stop, with no event lost or first seen twice; no rival takes the place of an event in the log. The key store never lacks a key it has on record, and creating, moving or rotating keys may be asked again after a stop and then gives the keys whose digests were given out.",
     ["crash_points", "histories"], "a stop before any one write of the histories in the bounds, all verdicts of the free signatures, escrows processed before or after what is delivered again",
     "Tests never stop between two writes; each step of logging is its own transaction and any of them may be the last.",
     ["src/keri/core/eventing.py", "src/keri/core/routing.py", "src/keri/vdr/eventing.py", "src/keri/app/keeping.py"],
     [("Kever.logEvent, update, incept, reload; Kevery escrow processing", "src/keri/core/eventing.py"), ("Revery.acceptReply, updateReply", "src/keri/core/routing.py"), ("Tever.logEvent, Tevery", "src/keri/vdr/eventing.py"), ("Manager.incept, rotate, move", "src/keri/app/keeping.py")],
     ["all stores after the stop and at the end", "Kever reloaded", "Manager reopened"])

prop("C26", "The key manager gives the promised keys, apart, sealed and usable",
     "Each rotation takes into use exactly the keys whose digests the step before gave out and makes as many next ones as asked; current and previous keys stay usable and are erased only when asked; keys of different identifiers and places differ; ingested sequences replay in order. Signing uses exactly the keys asked, at the indices asked, and refuses unknown keys and senseless positions. With an authentication key no secret is stored unsealed, only its seed opens the store, and setting, changing or removing it keeps every key usable.",
     ["inputs", "histories"], "all sequences of up to three operations with symbolic counts, codes, algorithms, tiers, erasures and indices, with and without an authentication key that is set, changed or removed between them",
     "Tests run one plan per algorithm; combinations of algorithm, erasure, ingestion, paths and changes of the authentication key are not sampled.",
     ["src/keri/app/keeping.py", "src/keri/core/signing.py"],
     [("Manager.incept, rotate, move, replay, ingest, sign, decrypt, updateAeid, setup", "src/keri/app/keeping.py"), ("RandyCreator, SaltyCreator", "src/keri/app/keeping.py"), ("Signer, Salter, Encrypter, Decrypter", "src/keri/core/signing.py")],
     ["Manager results", "ks.pris, pres, prms, sits, pubs, gbls"])

prop("C28", "An exchange message counts once, properly signed and in turn",
     "An exchange message is kept and handed to its behaviour exactly when its sender signed it to the threshold of the event of its own that the signatures cite, or with the key that is its nontransferable identifier, the content sent apart is what the message names, and its behaviour's own test passed. Copies that come early or partly signed wait and count once enough good signatures came within the time; what is refused or incomplete changes nothing kept, every signature kept verifies, and a kept message always comes back. Messages that exchange credentials follow their order of turns, each is answered once, and come with exactly the artifacts they name.",
     ["inputs", "histories", "schedules"], "all verdicts of signatures over the histories of deliveries, rotations and escrow processing in the bounds; all sequences of IPEX messages in the bounds",
     "Tests deliver complete messages of one sender or one partial sequence; mixtures of copies, of keys of different age and of turns are not sampled.",
     ["src/keri/peer/exchanging.py", "src/keri/acdc/ipexing.py", "src/keri/vc/protocoling.py"],
     [("Exchanger.processEvent, processEscrowPartialSigned, logEvent, cloneMessage", "src/keri/peer/exchanging.py"), ("IpexHandler.verify (v2)", "src/keri/acdc/ipexing.py"), ("IpexHandler.verify (v1)", "src/keri/vc/protocoling.py")],
     ["Exchanger.processEvent / processEscrow / cloneMessage", "db.exns, esigs, ecigs, epath, essrs, enst, epse", "handlers and notices"])

prop("C25", "Typed stores give back the values they were given, by key, in order",
     "Whatever text, parts, primitive, message, schema, signer or record is put in a store of its type comes back equal, under exactly its key and ordinal, in the order of keys, ordinals and insertion, each value of a set once, whichever way it is read: one by one, from an ordinal or insertion number on, last only, backwards, by branch, whole or as a count. Putting, pinning, adding, appending and removing change exactly what they name and tell whether they did; other stores and neighbouring keys stay untouched.",
     ["inputs", "histories"], "all values, ordinals, keys and single changes in the bounds over a filled store of each class",
     "Tests store a few well apart values per class; neighbouring keys, equal values, other separators and ways of reading are not combined.",
     ["src/keri/db/subing.py", "src/keri/db/koming.py"],
     [("all Suber classes", "src/keri/db/subing.py"), ("Komer, IoSetKomer, DupKomer", "src/keri/db/koming.py")],
     ["results and content of the stores through their own methods"])

prop("C36", "Field maps survive every serialization and answer for their digests",
     "A field map of texts, primitives, numbers, truth values, nothing, lists and maps comes back from its bytes with the same labels in the same order and the same values of the same types, in JSON, MGPK, CBOR and native CESR, or is refused when made. Its native form takes exactly its own bytes of a stream, in the text and the binary domain, and text that only looks like a primitive stays text. A map under a digest made anywhere in it is refused when anything in it is changed, and making digests changes nothing else.",
     ["inputs"], "all texts, contents of primitives, numbers and nestings in the bounds, and all changes to maps under digests",
     "Tests sample a few maps; texts that look like codes or escapes, edge numbers and mixtures of nestings and changes are not.",
     ["src/keri/core/mapping.py"],
     [("Mapper", "src/keri/core/mapping.py")],
     ["Mapper.mad / raw / qb64 / qb2 / said"])

prop("C37", "Partly disclosed content commits to exactly what is withheld",
     "A map of blocks compacts to the same most compact form, under the same digest, from every degree of expansion, and each partial form it expands to is of true content under that digest; an aggregate is committed to by its identifier, and exactly its true disclosures verify. A credential message made with any sections whole, in part or as digests has one and the same digest and reads back as given. Content or digests changed in any disclosed block, section or aggregate are refused.",
     ["inputs", "configurations"], "all trees, degrees of expansion, choices of disclosure, changes and serializations in the bounds",
     "Tests expand a few fixed examples; the degrees of disclosure of every shape, and forged blocks in otherwise right messages, are not combined.",
     ["src/keri/core/mapping.py", "src/keri/core/serdering.py", "src/keri/acdc/messaging.py"],
     [("Compactor, Aggor", "src/keri/core/mapping.py"), ("SerderACDC", "src/keri/core/serdering.py"), ("acdcmap, acdcatt, acdcagg, sect*", "src/keri/acdc/messaging.py")],
     ["Compactor.compact / expand / trace", "Aggor.disclose / verifyDisclosure", "SerderACDC(raw=...)"])

prop("C38", "Seals, blinded states and media keep their fields; blinding hides one state",
     "A fixed structure of any type (seals, blinded states, typed media, first seen couples) given in any accepted way carries exactly its fields, is the concatenation of its primitives in text and binary, and is read back from a stream or a counted group taking exactly its own bytes; a group cut short or of mixed types is refused. A blinded state or medium is refused when any field is changed under its digest. Unblinding gives back exactly the state that was blinded when it is among the candidates, and otherwise nothing, leaving the candidates alone.",
     ["inputs", "configurations"], "all values of the fields, ways of giving and reading, cuts of groups and candidates in the bounds",
     "Tests take one value per type; empty and boundary values, cuts, and candidates that nearly fit are not sampled.",
     ["src/keri/core/structing.py"],
     [("Structor, Sealer, Blinder, Mediar", "src/keri/core/structing.py")],
     ["Structor.crew / qb64b / qb2 / enclose / extract", "Blinder.blind / unblind"])

prop("C10", "A habery makes, keeps and finds again exactly its valid identifiers",
     "An identifier is made exactly when its thresholds, weights, counts, witnesses and name make sense, with exactly the key state asked for; what is refused leaves no record behind, does not keep the habery from opening again, and the name can be used for a later attempt. Rotations and interactions that make sense lead to exactly the next key state, made of the keys promised before, and those that do not change nothing. Whatever was made is found again after opening with all its keys, is removed when asked, never affects another, and its events are taken in by strangers.",
     ["histories", "configurations", "inputs"], "all configurations and sequences of steps in the bounds, and all numbers of witnesses for the threshold worked out",
     "Tests make identifiers that are right; refused attempts followed by others, or by opening the habery again, are not sampled.",
     ["src/keri/app/habbing.py", "src/keri/app/keeping.py", "src/keri/core/eventing.py"],
     [("Habery.makeHab, loadHabs, deleteHab; Hab.make, rotate, interact", "src/keri/app/habbing.py"), ("Manager.incept, rotate, move", "src/keri/app/keeping.py"), ("incept, rotate, ample", "src/keri/core/eventing.py")],
     ["Habery.habs, db.habs, db.names, db.prefixes", "Hab.kever", "Kevery of a stranger"])

prop("C33", "What watchers report is judged for exactly what they agree and differ in",
     "Judging the key state of a watched identifier considers exactly the enabled watchers of it that have answered, and leaves the local key state alone. Duplicity is reported exactly when a watcher has another event at the local sequence number or two that are ahead have different events at one; an update only when at least the threshold of watchers, all of them when none is given, agree on the same later event; lagging and consistent otherwise. A threshold of more watchers than there are is refused, without stopping other requests.",
     ["inputs", "configurations"], "all pairs of sequence numbers, combinations of reports and thresholds in the bounds",
     "Tests take one watcher in three states; combinations of watchers that differ from each other are not sampled.",
     ["src/keri/app/watching.py"],
     [("Adjudicator.adjudicate, performAdjudications, diffState", "src/keri/app/watching.py")],
     ["Adjudicator.cues"])

prop("C27", "Mailboxes, notices and signals give back each item once, in order",
     "Every message stored in a mailbox topic, of whatever serialization, is given back whole, in the order and under the number it was stored, from any number on, without messages of other topics; streamed to its owner it comes exactly once, however storing and reading interleave and whatever was taken out before. A notice stays, in the order of dates and in any slice, until it is removed, is marked once, and is given only if it is as it was signed. Of signals the latest per key is kept until it is taken or too old, however the loop that drops old ones is interrupted.",
     ["histories", "schedules", "inputs"], "all sequences of storing, reading, streaming, marking, removing, signalling and expiring in the bounds, all slices and numbers to read from",
     "Tests store and read a few messages and notices in one order.",
     ["src/keri/app/storing.py", "src/keri/app/notifying.py", "src/keri/app/signaling.py", "src/keri/app/indirecting.py"],
     [("Mailboxer", "src/keri/app/storing.py"), ("MailboxIterable, QryRpyMailboxIterable", "src/keri/app/indirecting.py"), ("Noter, Notifier", "src/keri/app/notifying.py"), ("Signaler.push, expireDo", "src/keri/app/signaling.py")],
     ["Mailboxer.cloneTopicIter / getTopicMsgs", "next(MailboxIterable)", "Notifier.getNotes / mar / rem", "Signaler.signals"])

prop("C35", "Contacts hold exactly what was put in them, signed, however they are read",
     "After any updates, replacements, settings and removals of fields, each contact has exactly the fields it was last given, and reading it whole, by field, in the list, and finding contacts and values by part or exactly all agree, whatever the names and texts of the fields. A record that was changed under its signature is neither given nor signed again, other contacts stay usable. Pictures come back whole, the last one given.",
     ["histories", "inputs"], "all sequences of steps, changes of records and contents and sizes of pictures in the bounds",
     "Tests take one plan of contacts with plain names of fields.",
     ["src/keri/app/organizing.py"],
     [("BaseOrganizer, Organizer, IdentifierOrganizer", "src/keri/app/organizing.py")],
     ["Organizer.get / list / find / findExact / values / getImg"])
