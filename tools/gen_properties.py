#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
M='metadata/metadata.go'; J='metadata/marshal.go'; K='metadata/keys.go'; E='metadata/errors.go'
T='metadata/trustedmetadata/trustedmetadata.go'; U='metadata/updater/updater.go'
R='metadata/multirepo/multirepo.go'; F='metadata/fetcher/fetcher.go'; C='metadata/config/config.go'
G='examples/cli/tuf-client/cmd/'
P=[]
def p(id,title,stmt,over,qtext,why,files,mech):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))

p('C01','Verification needs a threshold of distinct authorised valid signatures',
 "Verifying a role's metadata against its delegator succeeds only if at least the role's threshold of distinct key identifiers is satisfied, where a key identifier counts only if it is listed for that role, the delegator's key table holds a key under it, and the metadata's signature carrying that same identifier verifies with that key over the canonical form of that very metadata's signed part. A key identifier or signature that is repeated never counts twice, and a signature by a key not listed for the role never counts.",
 ['inputs'],"every delegator (root or targets, any number of keys, roles and thresholds) and every delegated metadata with any set of signatures",
 "tests sample a few key sets with thresholds 1 and 2; an accounting mistake that needs a duplicated key id, an unlisted key or a signature under another id passes them",
 [M],[('signature loop and distinct-key set','Metadata.VerifyDelegate'),('threshold comparison','Metadata.VerifyDelegate')])
p('C02','Verification of sufficiently signed metadata is refused only for stated reasons',
 "Verification fails only if the delegator is not root or targets metadata, does not delegate to the role or lists no keys for it, a key listed for the role is missing from the key table or cannot be decoded, the delegated object is not one of the four metadata types or cannot be canonically encoded, or fewer distinct listed keys than the threshold have a valid signature. A missing or invalid signature of one key, or extra signatures by other keys, never makes verification fail while the threshold is still met.",
 ['inputs'],"every delegator and delegated metadata that meets the threshold",
 "tests check a handful of accepted documents; a check added for one shape of input rejects others unseen",
 [M],[('error returns of verification','Metadata.VerifyDelegate')])
p('C03','A role is verified with exactly the keys and threshold delegated to it',
 "The keys and threshold used to verify a role are the ones its delegator declares for that exact role name: root's entry for the name, the first delegated role of that name, or the common keys of a succinct delegation when the name is one of its bins. A delegator that is not root or targets metadata, and a role the delegator does not name, are refused.",
 ['inputs'],"every delegator, role name and list of delegations, including duplicate names and succinct delegations",
 "tests use short delegation lists with unique names and one threshold",
 [M],[('selection of keys and threshold','Metadata.VerifyDelegate'),('bin membership','SuccinctRoles.IsDelegatedRole')])
p('C04','Length and digest checks accept exactly the described bytes',
 "Checking bytes against a target description succeeds if and only if every listed digest names a supported algorithm (sha256 or sha512) and equals that algorithm's digest of the bytes, and the byte count equals the described length. For the description of a metadata file the digests are checked whenever any are listed and the length whenever it is not zero; any mismatch or unknown algorithm is reported as a length or hash mismatch.",
 ['inputs'],"every byte string and every set of digests, including several algorithms where only one mismatches",
 "tests use one or two fixed files; a check that stops at the first matching digest or skips one when the other is present passes them",
 [M],[('digest loop','verifyHashes'),('length comparison','verifyLength'),('entry points','MetaFiles.VerifyLengthHashes, TargetFiles.VerifyLengthHashes')])
p('C05','Metadata loads only as its declared type and without repeated signatures',
 "Loading a document as root, timestamp, snapshot or targets metadata succeeds only if the document declares exactly that type and no two of its signatures carry the same key identifier. When loading fails an error is returned and the object being loaded into is left as it was; it fails only for one of these reasons or because the document cannot be read or parsed.",
 ['inputs'],"every byte string and each of the four requested types, from memory or from a file",
 "tests load well-formed files and a few type mismatches",
 [M],[('type check','checkType'),('signature uniqueness','checkUniqueSignatures'),('assignment after success','Metadata.FromBytes, Metadata.FromFile')])
p('C06','Hostile documents cause errors, never panics',
 "No byte string, however malformed or maliciously structured, makes loading it as metadata, verifying it, updating a trusted set with it, or looking up the delegations or bins it describes panic: such a document yields an error or a result. In particular type assertions, pointer dereferences of map entries, slicing, shifts and calls into cryptographic code on values taken from the document are guarded.",
 ['inputs'],"every byte string handed to the loaders and, through them, to verification, the trusted set and the delegation search",
 "the tests contain no malformed documents of the relevant shapes (null entries, missing objects, out-of-range numbers, short keys)",
 [M,J,K,T,U],[('checked assertions','checkType'),('null rejection','UnmarshalJSON methods'),('range checks','SuccinctRoles.UnmarshalJSON'),('key length check','Key.ToPublicKey')])
p('C07','Serialising metadata preserves every field, known or not',
 "For every metadata object, serialising writes each of its fields that is set under the field name the specification gives it with that field's value, together with all unrecognised fields, and parsing reads each specified name back into the same field and keeps every other name, and only those, as unrecognised. A recognised field always wins over an unrecognised one of the same name. An object that sets two fields that exclude each other is refused, and every parsed target file knows the path it is listed under.",
 ['inputs'],"every document and every object of the thirteen metadata types",
 "tests compare a few files that carry no unrecognised fields in most of the types, so a dropped or swapped name for one type is not noticed",
 [J,'metadata/types.go'],[('field tables','MarshalJSON and UnmarshalJSON of each type, and the struct tags')])
p('C08','Structurally unsafe metadata is rejected when parsed',
 "Parsing rejects any role, delegated role or succinct delegation with a signature threshold below 1, any succinct delegation whose bit length is not between 1 and 32, any delegation to a role without a name or named like a top-level role, and any null entry among keys, roles, file infos or targets. Signature and digest values that are not valid hexadecimal strings are rejected too. Apart from these defects parsing fails only when the JSON itself cannot be decoded, so that no valid document is refused.",
 ['inputs'],"every document that contains such a construct anywhere a parser accepts one",
 "tests parse only structurally safe documents",
 [J],[('threshold, range, name and null checks','UnmarshalJSON of Role, DelegatedRole, SuccinctRoles, Delegations, RootType, SnapshotType, TimestampType, TargetsType'),('hex decoding','HexBytes.UnmarshalJSON')])
p('C09','Key identifiers and decoded keys are determined by the key itself',
 "A key's identifier is the lowercase hex SHA-256 digest of the canonical encoding of its serialised public form, and is the same every time it is asked for. Decoding a key yields a public key of exactly the algorithm its type declares (RSA, ECDSA or Ed25519 of the right length) or an error, and a key built from a public key has the type, scheme and encoding for that algorithm, so that decoding it gives the key back.",
 ['inputs'],"every key type and every key value",
 "tests use one key per algorithm",
 [K],[('identifier','Key.ID'),('decoding','Key.ToPublicKey'),('encoding','KeyFromPublicKey')])
p('C10','Signing covers the current content under the signer\'s own key identifier',
 "Signing adds exactly one signature, made by the given signer over the canonical form of the metadata's current signed part and labelled with the identifier of that signer's public key; it replaces an earlier signature of the same key and keeps those of all other keys. If any step fails an error is returned and the signatures stay as they were. Clearing the signatures leaves an empty list of them and changes nothing else.",
 ['inputs','histories'],"every metadata object, signer and sequence of earlier signatures",
 "tests sign once or twice with distinct keys and look at the count",
 [M],[('payload, identifier and list update','Metadata.Sign'),('clearing','Metadata.ClearSignatures')])
p('C11','Root keys are added and revoked consistently with the roles that use them',
 "Adding a key to a root role lists its identifier for that role exactly once and stores the key under that identifier; revoking removes the identifier from that role only and drops the key from the store exactly when no other role still lists it. Both fail without changing anything when the role does not exist, and revoking also when the role does not list the key.",
 ['inputs','histories'],"every root object, key, role and sequence of additions and revocations, including keys shared between roles",
 "tests share one key between two fixed roles",
 [M],[('add and revoke','RootType.AddKey, RootType.RevokeKey')])
p('C12','Delegation keys are added and revoked consistently with the roles that use them',
 "Adding a key to a delegated role (or to a succinct delegation) lists its identifier there exactly once and stores the key; revoking removes the identifier from the named role (or the succinct delegation) only and drops the key from the store exactly when no other delegated role still lists it. Both fail without changing anything when there is no such delegated role, and revoking also when the role does not list the key.",
 ['inputs','histories'],"every targets object, key, role and sequence of additions and revocations",
 "tests use two delegated roles and one key",
 [M],[('add and revoke','TargetsType.AddKey, TargetsType.RevokeKey')])
p('C13','A delegated role answers only for paths its patterns or prefixes match',
 "A delegated role that lists path patterns is responsible for a target path exactly when the path has as many slash-separated parts as one of the patterns and every part matches the corresponding pattern part; only if it lists no patterns do its hash prefixes decide, by being a prefix of the lowercase hex SHA-256 digest of the path. A role that lists neither is responsible for nothing.",
 ['inputs'],"every target path and every list of patterns or prefixes",
 "tests use short lists where the first entry decides; one pins a base64 digest where the specification asks for hex",
 [M],[('pattern loop','DelegatedRole.IsDelegatedPath'),('part-wise match','isTargetInPathPattern')])
p('C14','Succinct delegations name, enumerate and recognise the same bins',
 "For a succinct delegation of bit length b the enumerated role names are prefix, a hyphen and each number from 0 to 2^b-1 in lowercase hex zero-padded to the width of the largest. The bin a target path is assigned to is the one numbered by the leftmost b bits of the path's SHA-256 digest and is terminating, and a name is recognised as a bin exactly when it is one of those names.",
 ['inputs'],"every bit length from 1 to 32, prefix, target path and candidate name",
 "tests use one prefix and a few bit lengths and suffixes",
 [M],[('assignment','SuccinctRoles.GetRolesForTarget'),('enumeration','SuccinctRoles.GetRoles'),('recognition','SuccinctRoles.IsDelegatedRole')])
p('C15','Errors are classified into the documented families',
 "Every repository-side error (unsigned, bad or equal version number, expired, length or hash mismatch, and the general one) tests as a repository error, equal-version errors also as bad-version errors, and HTTP-status and length-limit download errors as download errors, and each as its own class. No error tests as a member of a family it does not belong to, and the text of each states what it was given: its message, or the address and status of the response.",
 ['inputs'],"every pair of an error of the library and a family",
 "no test enumerates the pairs",
 [E],[('Is methods','the Is method of each error type'),('texts','the Error method of each error type')])
p('C16','Target descriptions describe the given bytes and compare by content',
 "A target description generated from bytes or a file records the exact byte count and, for each requested algorithm (sha256 by default), the digest of those bytes under that algorithm's name, and an unsupported algorithm is an error. Two digest sets are equal only if at least one algorithm is common to both and every common algorithm has the same value, and two target descriptions only if their lengths are equal too.",
 ['inputs'],"every byte string, list of algorithms and pair of descriptions",
 "tests generate one or two descriptions and compare equal ones",
 [M],[('generation','TargetFiles.FromBytes, TargetFiles.FromFile'),('comparison','Hashes.Equal, TargetFiles.Equal')])
p('C17','A signature is checked with the scheme of its key',
 "A signature is verified with the algorithm of the listed key's type and with SHA-256 as the message digest for RSA and ECDSA keys and none for Ed25519 keys; for RSA keys the padding is the one the key's declared scheme names (RSASSA-PSS).",
 ['inputs'],"every key and signature",
 "tests sign and verify with the same library calls, so a scheme other than the declared one is consistent with them",
 [M,K],[('verifier selection','Metadata.VerifyDelegate')])
p('C18','New metadata is complete, of its own kind and shares nothing',
 "Newly created metadata has its role's type, the supported specification version, version 1 and the expiry given (the current time without one); it lists exactly what its role cannot do without: root its four roles, each without keys and with threshold 1, and consistent snapshots; the snapshot version 1 of the targets; the timestamp version 1 of the snapshot; and no signatures, keys, targets or delegations. A new file description has no length and no digests, and that of metadata the version given, or 1 if that is smaller. Every object, list and map of it is its own: changing one document never changes another one.",
 ['inputs','histories'],"every expiry and version, and every sequence of creating and changing documents",
 "tests create one document of a kind and compare some fields; sharing shows only when two documents are changed in turn",
 [M],[('constructors','Root, Snapshot, Timestamp, Targets, TargetFile, MetaFile')])
p('C19','The in-memory repository returns what was last stored for each role',
 "A new repository object holds nothing and is independent of every other one; after metadata is set for a role, and for targets under a name, the repository returns that very object for it until it is set again, and what it returns for every other role and name is unaffected.",
 ['inputs','histories'],"every sequence of sets and every role name",
 "its tests set each role once on one repository",
 ['metadata/repository/repository.go'],[('setters and getters','repositoryType')])
p('C20','A new root is trusted only one version up and signed by the old and new root',
 "The trusted root is replaced only by root metadata that is signed by a threshold of the currently trusted root's root keys and by a threshold of its own root keys, and whose version is exactly one more than the trusted one; the initial root must be signed by a threshold of its own root keys. No expiry check applies to an intermediate root, and nothing else is held against a new root.",
 ['histories','inputs'],"every sequence of candidate roots offered to the trusted set",
 "tests offer a fixed set of bad roots; dropping one of the two verifications or loosening the version rule for some histories goes unnoticed",
 [T],[('checks before replacing the root','TrustedMetadata.UpdateRoot'),('initial root','New, loadTrustedRoot')])
p('C21','The timestamp never rolls back',
 "The trusted timestamp is set only to metadata signed by a threshold of the trusted root's timestamp keys that describes the snapshot; once one is trusted, a replacement must have a higher version and must not describe an older snapshot version. A candidate with the same version is refused with the equal-version error and one with a lower version, of itself or of the snapshot, with the bad-version error. Nothing else about a candidate that is in order and unexpired is a reason to refuse it.",
 ['histories','inputs'],"every sequence of candidate timestamps offered to the trusted set",
 "tests offer single rollbacks; combinations of timestamp and snapshot versions are not covered",
 [T],[('signature and rollback checks','TrustedMetadata.UpdateTimestamp')])
p('C22','The snapshot matches the timestamp and never rolls back',
 "The trusted snapshot is set only to metadata signed by a threshold of the trusted root's snapshot keys and, unless the caller vouches that the bytes come from its own verified cache, whose bytes match the length and digests the trusted timestamp lists. Once a snapshot is trusted, a replacement must list every metadata file the old one listed, each with a version at least as high; and an update succeeds only if the new snapshot's version is the one the timestamp lists. A snapshot that meets these conditions, in order and unexpired, is not refused.",
 ['histories','inputs'],"every sequence of candidate snapshots and every set of listed files",
 "tests remove or roll back one fixed entry; a check that looks only at some entries or only at some updates passes",
 [T],[('hash, signature and per-file rollback checks','TrustedMetadata.UpdateSnapshot'),('final version check','checkFinalSnapshot')])
p('C23','Targets metadata is bound to the snapshot and to its delegator',
 "Targets metadata for a role becomes trusted only if the trusted snapshot lists the role, the bytes match the length and digests listed there, the version equals the listed one, it is not expired at the reference time, and it is signed by a threshold of the keys that the named delegator (the trusted root for top-level targets, otherwise an already trusted targets role) assigns to that role. It is then stored under that role's name only; metadata that meets all this, in workflow order, is not refused.",
 ['histories','inputs'],"every role name, delegator and candidate document",
 "tests cover top-level targets and two delegated roles",
 [T],[('checks before storing','TrustedMetadata.UpdateDelegatedTargets, UpdateTargets')])
p('C24','Metadata can only be updated in workflow order',
 "The root cannot be replaced once a timestamp is trusted, nor the timestamp once a snapshot is trusted, nor the snapshot once top-level targets are trusted; no snapshot is accepted before a timestamp, no targets before a snapshot, and no delegated targets before their delegator. Each violation is refused with the runtime error class and changes nothing.",
 ['histories'],"every sequence of update calls on a trusted set",
 "tests try one wrong call per state",
 [T],[('state guards','UpdateRoot, UpdateTimestamp, UpdateSnapshot, UpdateDelegatedTargets')])
p('C25','Expired metadata blocks the next step, at one fixed reference time',
 "An expired root makes every timestamp update fail, an expired timestamp makes every snapshot update fail, an expired snapshot makes every targets update fail, and expired targets are never accepted; updating to a timestamp or snapshot that is itself expired reports the expiry error. Metadata is expired exactly when the reference time is after its expiry time, and the reference time is fixed once, when the trusted set is created, from the current time in UTC.",
 ['histories','inputs'],"every expiry time and every sequence of updates",
 "tests shift one expiry at a time",
 [T,M],[('expiry guards','UpdateTimestamp, checkFinalTimestamp, checkFinalSnapshot, UpdateDelegatedTargets'),('comparison','IsExpired'),('reference time','New')])
p('C26','A refused update leaves the trusted set as it was',
 "When an update of the trusted set fails, the set is unchanged, with one documented exception: a correctly signed, non-rolled-back timestamp or snapshot is kept for rollback protection although the call reports that it is expired or is not the version the timestamp lists. Each update changes only its own role, stores exactly the object that was verified and returned, and nothing outside the update calls writes to the set.",
 ['histories','inputs'],"every failing and succeeding update in every state",
 "tests check returned errors, rarely the state left behind",
 [T,U],[('single assignment after all checks','the four update methods'),('who writes the set','every function of the module')])
p('C27','Saving writes exactly the serialised document to the named file',
 "Converting metadata to bytes gives the JSON encoding of the complete document, signatures included, or an error. Saving it to a file succeeds only if the named file then holds exactly those bytes; an encoding or write failure is returned; and no other file is touched, and none before the document is encoded.",
 ['inputs','fault_sequences'],"every document, file name and write failure",
 "tests save a few small documents to a writable directory",
 [M],[('encoding and writing','Metadata.ToBytes, Metadata.ToFile')])
p('C30','A refresh updates root, timestamp, snapshot and targets in that order or fails',
 "A successful online refresh has updated root, then timestamp, then snapshot, then top-level targets, each through the trusted set's checks. The first error met, other than an unusable cached copy, the absence of a newer root or a timestamp of unchanged version, is returned and nothing later is attempted.",
 ['histories','fault_sequences'],"every combination of failing downloads, verifications and disk writes",
 "the tests of the client are not in the reliable set and inject few faults",
 [U],[('sequence','Updater.Refresh, onlineRefresh'),('error propagation','loadRoot, loadTimestamp, loadSnapshot, loadTargets')])
p('C31','Root rotation walks every version in turn and stops only when none is newer',
 "Starting one above the trusted root's version the client requests successive root versions, at most the configured number of them, and verifies and then persists each before requesting the next. It stops early without error only when the download fails with HTTP status 404 or 403; any other failure to download, verify or persist is returned.",
 ['histories','fault_sequences','configurations'],"every number of available roots, every limit and every failure",
 "tests rotate a few roots and inject one or two failures",
 [U],[('rotation loop','loadRoot')])
p('C32','Only verified metadata is cached, under the name of its role',
 "Apart from the initial root the client is configured with, bytes are written to the metadata cache only after the trusted set has accepted exactly those bytes for that role, and they are written under that role's name. Every accepted download is cached when caching is on, so that accepted remote metadata is available to the next start.",
 ['histories','fault_sequences','inputs'],"every response of a repository and every role",
 "tests look at file names after a few runs, not at what was written when a check failed",
 [U],[('verify before persist','loadRoot, loadTimestamp, loadSnapshot, loadTargets'),('initial root','New')])
p('C33','Cached metadata is replaced atomically and nothing is left behind',
 "A cached metadata file is only ever replaced by renaming onto it a complete temporary file from the same directory, so a crash or failed write at any point leaves the old or the new content. On every path the temporary file is closed, and it is removed if it did not become the cached file, and a failed write or rename is reported.",
 ['crash_points','fault_sequences'],"every point at which the process stops or a file operation fails",
 "tests never fail a file operation or stop midway",
 [U],[('stage and rename','persistMetadata')])
p('C34','The local cache is untrusted and never blocks an update',
 "Metadata read from the local cache goes through the same verification by the trusted set as downloaded metadata before it is used. A cached timestamp, snapshot or targets file that is missing, unreadable, malformed, badly signed or outdated never makes an online update fail by itself: the client goes on to the remote copy, and the timestamp is always requested from the remote.",
 ['histories','inputs','fault_sequences'],"every content of the cache directory",
 "tests corrupt a cached file in one or two ways only",
 [U],[('cached copy first, remote otherwise','loadTimestamp, loadSnapshot, loadTargets')])
p('C35','Every download is bounded by the verified or configured length',
 "Root and timestamp are requested with their configured maximum lengths; snapshot and targets metadata with the length that already verified metadata lists for that very file or, if it lists none, the configured maximum for that kind of metadata; and target files with the length in the verified target description.",
 ['inputs','configurations'],"every listed length, including none, and every configuration",
 "tests set one length at a time",
 [U],[('length argument of each download','loadRoot, loadTimestamp, loadSnapshot, loadTargets, DownloadTarget')])
p('C36','Each file is requested at the address the specification gives it',
 "Metadata is requested at the metadata base address followed by a slash and the escaped role name with .json; root always, and snapshot and targets exactly when the trusted root enables consistent snapshots, with the expected version number and a dot in front, and the timestamp never. A target is requested at the target base address (the argument, or else the configured one) followed by its path, whose last component is prefixed with one of its digests and a dot exactly when consistent snapshots and hash prefixes are both enabled.",
 ['inputs','configurations'],"every role name, version, target path and configuration",
 "tests use flat names and paths with at most one directory",
 [U],[('metadata address','downloadMetadata and its callers'),('target address','DownloadTarget')])
p('C37','A downloaded target is returned or written only after it verified',
 "Downloading a target returns bytes, or writes them to disk, only if those very bytes have the length and every digest of the given target description; on any failure no bytes are returned and no file is written. On success with caching enabled exactly those bytes are at the returned path: the caller's path if given, else the escaped target path in the target directory.",
 ['inputs','fault_sequences','configurations'],"every response to the download and every configuration",
 "tests download valid targets and one corrupt one",
 [U],[('verify between download and write','DownloadTarget')])
p('C38','A cached target is returned only after it verified',
 "Looking up a cached target returns bytes and a path only if the bytes read from that path have the length and every digest of the given target description and caching is enabled. A missing, unreadable or different file means no cached target is reported, not an error.",
 ['inputs','configurations'],"every content of the target file and every configuration",
 "tests look up one valid and one missing file",
 [U],[('verify after read','FindCachedTarget')])
p('C39','Targets are searched depth first, in listed order, honouring terminating roles',
 "A target's description is taken from the first role, in a depth-first pre-order walk from top-level targets that takes each role's delegations for that path in the order listed, that lists the path itself. After a terminating delegation no later sibling and no role still pending is consulted; no role is visited twice; at most the configured number of delegated roles is visited; and if a role on the way cannot be loaded the search fails.",
 ['inputs','configurations'],"every delegation graph, including cycles, shared roles and terminating roles, and every limit",
 "graphs in the tests are small, and their outcome depended on random iteration order",
 [U,M],[('walk','preOrderDepthFirstWalk'),('ordered matches','Delegations.GetRolesForTarget')])
p('C40','With caching disabled nothing is written to disk',
 "When local caching is disabled, creating the clients, refreshing, looking up and downloading targets create, write, rename or remove no file or directory, for single- and multi-repository clients alike.",
 ['configurations','histories'],"every sequence of client calls with caching disabled",
 "one test checks that one directory stays empty",
 [U,C,R],[('guards','persistMetadata, DownloadTarget, EnsurePathsExist')])
p('C41','Offline mode never uses the network and skips no check',
 "In the offline (unsafe local) mode, refreshing and looking up targets perform no download, for delegated roles too. The cached timestamp, snapshot and targets are still verified through the trusted set in that order, and any missing or invalid one makes the refresh or lookup fail.",
 ['configurations','histories','inputs'],"every content of the cache and every target path",
 "tests cover top-level metadata only",
 [U],[('mode switch','Refresh, unsafeLocalRefresh, loadTargets')])
p('C42','Names from metadata never escape the cache directories',
 "Every file the client reads or writes for a role is named by the escaped role name directly inside the metadata directory, and by default every target file by the escaped target path directly inside the targets directory, so that no role name or target path can address another directory. A role's metadata is read from exactly the file name it is written to.",
 ['inputs'],"every role name and target path, including ones with separators, dots and escapes",
 "tests use names without special characters, except one list that only checks downloads",
 [U,R],[('file names','persistMetadata, loadLocalMetadata, generateTargetFilePath')])
p('C43','A client exists only on top of a verified initial root',
 "A client is created only if a trusted root and a metadata address were given and that root verifies against its own root keys. Any failure to verify it, to create the cache directories or to cache the initial root is returned instead of a client.",
 ['inputs','configurations','fault_sequences'],"every configuration and initial root",
 "tests create clients from valid roots",
 [U,T],[('construction','updater.New, trustedmetadata.New')])
p('C44','Every verified target lookup refreshes first',
 "Looking up a target performs a refresh first whenever no top-level targets are trusted yet, returns the refresh's error if it fails, and otherwise takes the description from trusted targets metadata only.",
 ['histories'],"every sequence of calls on a client",
 "tests always refresh explicitly",
 [U],[('implicit refresh','GetTargetInfo')])
p('C45','Every operation ends',
 "Every operation of the library ends, whatever metadata, files and answers it is given: each loop goes once over a collection it leaves alone, counts towards a bound that does not move, or works off a list that can only grow while a limited number of new roles is visited; no operation calls itself; and each network request is given a positive time limit, which the default fetcher applies to the complete exchange. In particular neither a cycle of delegations nor an endless supply of root versions keeps a client busy for ever.",
 ['inputs','fault_sequences'],"every input, delegation graph and sequence of answers",
 "tests can show that a call ended, not that every call does, and use small acyclic delegation trees",
 [U,M,T,R,F],[('bounded walk over delegations','GetTargetInfo'),('bounded root rotation','Refresh'),('time limit per request','DefaultFetcher.DownloadFile')])
p('C46','A client reports exactly the metadata it trusts',
 "The top-level targets a client reports are the targets listed in its trusted top-level targets metadata, or none before that is loaded; the trusted metadata set it hands out holds exactly the root, timestamp, snapshot, targets and reference time it trusts.",
 ['histories'],"every state of a client",
 "tests look at these values after one successful refresh",
 [U],[('accessors','Updater.GetTopLevelTargets, Updater.GetTrustedMetadataSet')])
p('C47','Reading, checking and searching change nothing they are given',
 "Operations that verify, compare, check expiry, serialise, search, describe or download change neither the object they are called on nor any object, list, map or byte slice they are given or can reach from it; operations that do change their object (loading, signing, clearing signatures, adding and revoking keys, updating the trusted set, setting repository metadata) write to nothing else they are given; and no operation of a client changes its configuration.",
 ['inputs','histories'],"every exported operation and every input",
 "tests look at results, not at whether the arguments still are what they were",
 [M,J,K,T,U,R,C,F],[('serialisers','MarshalJSON'),('verification','Metadata.VerifyDelegate'),('search','Delegations.GetRolesForTarget'),('downloads','Updater.DownloadTarget')])
p('C48','The library keeps no state outside its objects and leaves the process alone',
 "Apart from the logger, which SetLogger sets and GetLogger returns, no operation of the library reads or leaves behind state outside the objects it is given: none assigns or changes package-level variables, its own or the standard library's, so that clients never influence each other; none ends the process, prints, changes or (other than through the HTTP transport) depends on the environment or working directory, starts processes or listeners, or leaves goroutines or timers behind.",
 ['inputs','histories','schedules'],"every function of the library",
 "tests use one client at a time and cannot see what an operation leaves behind",
 [M,J,K,T,U,R,C,F,'metadata/logger.go','metadata/repository/repository.go'],[('logger','SetLogger, GetLogger'),('all operations','every exported function')])
p('C49','Every file the library opens is closed again on every path',
 "Whenever an operation of the library opens a file, to read cached metadata, metadata documents or targets or to write the cache, that file is closed by the time the operation returns, whether it succeeds or fails at whatever step, and is not used after it was closed.",
 ['inputs','histories','fault_sequences'],"every function of the library that opens a file and every path through it, failing ones included",
 "tests look at results; an open file shows only after thousands of operations, or on paths where a read or write fails",
 [M,U],[('reading documents and targets','Metadata.FromFile, TargetFiles.FromFile'),('cache','Updater.loadLocalMetadata, Updater.persistMetadata')])
p('C50','A download never exceeds its length limit',
 "The default fetcher returns a body only if it is at most the given maximum length and never reads more than one byte beyond that limit from the server, whether or not and however truthfully the server announces a length. A longer one is reported as a length mismatch; one within the limit is refused only if reading it fails or the server announces a length that is too large or not a number.",
 ['inputs','fault_sequences'],"every response, announced length and limit",
 "its test downloads from the internet with exact lengths",
 [F],[('announced length, limited reader, final comparison','DefaultFetcher.DownloadFile')])
p('C51','A download succeeds only with status 200 and releases the connection',
 "The default fetcher returns a body only for HTTP status 200; any other status is reported with that status and address as the HTTP download error, and request or read errors are returned. The given timeout applies to the whole request, and the response body is closed on every path.",
 ['inputs','fault_sequences'],"every response status and failure",
 "its test covers one 404 and one success",
 [F],[('status check, close and timeout','DefaultFetcher.DownloadFile')])
p('C60','A multi-repository target needs a threshold of agreeing repositories',
 "Looking a target up across repositories returns a description only if at least the mapping's threshold of distinct repositories listed in that mapping each gave, for that path, a description equal to it, and the repositories returned with it are such ones, each listed once. Every answer counts for a description equal to it. If two different descriptions both reach the threshold the lookup fails.",
 ['inputs','configurations'],"every map file, set of repositories and set of answers",
 "tests use one or two agreeing repositories",
 [R],[('grouping and threshold','MultiRepoClient.GetTargetInfo')])
p('C61','Mappings are tried in order and a terminating match ends the search',
 "Mappings are consulted in the order of the map file, only those with a pattern that matches the path; the first that reaches a consensus decides, and a matching terminating mapping without consensus ends the search with an error. A malformed pattern ends the search with an error. A repository that fails to answer is skipped and never counts towards a threshold.",
 ['inputs','configurations'],"every map file and set of answers",
 "tests use one mapping",
 [R],[('mapping loop','MultiRepoClient.GetTargetInfo')])
p('C62','Each repository client has its own root of trust and its own directory',
 "Every repository of the map file gets its own client, built from the trusted root provided under that repository's name, its first address, and a metadata directory of its own directly inside the configured one; the cache policy is passed on. Targets go to the configured folder or, if there is none, to a folder of the repository's own. A repository without a root or address, or with a name that is not a plain folder name, is refused, and so are a null map file and null mappings; nothing else is.",
 ['inputs','configurations'],"every map file and set of roots",
 "tests set up one or two well-named repositories",
 [R],[('set-up loop','initTUFClients'),('root check','NewConfig')])
p('C63','Multi-repository downloads come verified from one of the given repositories',
 "Downloading through a multi-repository client returns only what the cache lookup or the download of one of the given repositories' clients returned for that same target description, trying them in the given order, and it fails if none succeeds.",
 ['inputs','fault_sequences'],"every list of repositories and every failure",
 "not tested beyond configuration",
 [R],[('download loop','MultiRepoClient.DownloadTarget')])
p('C64','All top-level targets of a multi-repository client went through the consensus',
 "Every description in the combined list of top-level targets was obtained for that name through the mapping search, and two different descriptions for one name make the listing fail, as does a target the search cannot establish. Refreshing a multi-repository client refreshes every repository or returns an error.",
 ['inputs','histories'],"every set of repositories and map file",
 "not tested",
 [R],[('listing and refreshing','GetTopLevelTargets, Refresh')])
p('C70','The default configuration is bounded and caches',
 "A default configuration has positive, finite limits for root rotations, delegations and the four metadata lengths, a download implementation, hash-prefixed targets, caching on and offline mode off, uses the given root and address, and takes targets from the targets folder below the address. An unusable address is an error.",
 ['inputs','configurations'],"every address and root",
 "a test compares some fields with fixed values",
 [C],[('defaults','config.New'),('directories','EnsurePathsExist')])
p('C80','The command-line client prints success only for verified targets',
 "The get command trusts only the root saved at initialisation, and reports success only if refresh, lookup and either the cached-target check or the verified download of the looked-up description succeeded; every failure is returned as an error.",
 ['histories','fault_sequences'],"every failure on the way",
 "the commands have no tests",
 [G+'get.go'],[('sequence','GetCmd, verifyEnv')])
p('C81','The reset command deletes only its own two folders and only on consent',
 "Resetting removes nothing but the metadata and download folders in the working directory, and each of them only if the user answered yes to the question for that folder or forced the deletion.",
 ['inputs'],"every answer and flag",
 "the commands have no tests",
 [G+'reset.go'],[('guarded deletion','ResetCmd, askForConfirmation')])
p('C82','Initialisation saves only a verified root',
 "The init command saves a root, given as a file or downloaded from the repository with HTTP status 200, only after exactly those bytes verified as a root signed by its own keys, and saves it as the root file the get command reads; otherwise it fails and saves none.",
 ['inputs','fault_sequences'],"every file, response and failure",
 "the commands have no tests",
 [G+'init.go'],[('verify before save','InitializeCmd, fetchTrustedRoot')])
# not applicable for this family of technique
p('N01','Canonical encodings agree byte for byte with other implementations',
 "For every metadata object the canonical encoding that is signed and verified is byte for byte the one other TUF implementations produce.",
 ['inputs'],"every metadata object","only files produced by one other implementation are compared",[M],[('canonical encoding','go-securesystemslib cjson')])
p('N02','Signatures cannot be forged',
 "Nobody without a private key can produce a signature that verifies with the matching public key.",
 ['inputs'],"every signature","tests cannot quantify over adversaries",[M],[('verifiers','sigstore signature')])
p('N03','One client can be used from several goroutines',
 "Concurrent calls on one client behave as if made one after another.",
 ['schedules'],"every interleaving","no test runs calls concurrently",[U],[('none: the client keeps unguarded state','Updater')])
p('N04','Cached metadata survives power loss',
 "After a power loss each cached metadata file holds complete old or complete new content.",
 ['crash_points'],"every point of power loss","tests cannot cut power",[U],[('rename without sync','persistMetadata')])
p('N05','Succinct bins receive targets uniformly',
 "Target paths are spread uniformly over the bins of a succinct delegation.",
 ['inputs'],"every set of target paths","a distribution is a statement about all inputs",[M],[('bin assignment','SuccinctRoles.GetRolesForTarget')])
p('N06','Path patterns match like the reference implementation\'s',
 "A path pattern matches exactly the target paths that the reference implementation's shell-style matching accepts.",
 ['inputs'],"every pattern and path","tests list a few patterns",[M],[('filepath.Match','isTargetInPathPattern')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P),'properties')
